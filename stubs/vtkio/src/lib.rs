//! Stand-in for the vtkio crate (which cannot be fetched here): the part of its model that up4 reads, with the
//! files put into memory by the harness.
pub mod model {
    use num_traits::NumCast;
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    use std::path::Path;

    pub trait Scalar: NumCast + Copy + 'static {}
    impl<T: NumCast + Copy + 'static> Scalar for T {}

    macro_rules! buffer {
        ($($v:ident $t:ty),*) => {
            #[derive(Clone, Debug)]
            pub enum IOBuffer { $($v(Vec<$t>)),* }
            impl IOBuffer {
                pub fn cast_into<T: NumCast>(self) -> Option<Vec<T>> {
                    match self { $(IOBuffer::$v(v) => v.into_iter().map(T::from).collect()),* }
                }
                pub fn len(&self) -> usize {
                    match self { $(IOBuffer::$v(v) => v.len()),* }
                }
            }
            $(impl From<Vec<$t>> for IOBuffer { fn from(v: Vec<$t>) -> Self { IOBuffer::$v(v) } })*
        };
    }
    buffer!(U8 u8, I8 i8, U16 u16, I16 i16, U32 u32, I32 i32, U64 u64, I64 i64, F32 f32, F64 f64);
    impl IOBuffer {
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn into_vec<T: 'static>(self) -> Option<Vec<T>> {
            fn same<A: 'static, T: 'static>(v: Vec<A>) -> Option<Vec<T>> {
                (Box::new(v) as Box<dyn std::any::Any>).downcast::<Vec<T>>().ok().map(|v| *v)
            }
            match self {
                IOBuffer::U8(v) => same(v),
                IOBuffer::I8(v) => same(v),
                IOBuffer::U16(v) => same(v),
                IOBuffer::I16(v) => same(v),
                IOBuffer::U32(v) => same(v),
                IOBuffer::I32(v) => same(v),
                IOBuffer::U64(v) => same(v),
                IOBuffer::I64(v) => same(v),
                IOBuffer::F32(v) => same(v),
                IOBuffer::F64(v) => same(v),
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct DataArrayBase<E> {
        pub name: String,
        pub elem: E,
        pub data: IOBuffer,
    }
    impl<E> DataArrayBase<E> {
        pub fn len(&self) -> usize {
            self.data.len()
        }
        pub fn is_empty(&self) -> bool {
            self.data.is_empty()
        }
    }
    pub type FieldArray = DataArrayBase<u32>;
    pub type DataArray = DataArrayBase<ElementType>;
    #[derive(Clone, Debug)]
    pub enum ElementType {
        Scalars,
        Vectors,
    }
    #[derive(Clone, Debug)]
    pub enum Attribute {
        DataArray(DataArray),
        Field { name: String, data_array: Vec<FieldArray> },
    }
    impl Attribute {
        pub fn name(&self) -> &str {
            match self {
                Attribute::DataArray(d) => &d.name,
                Attribute::Field { name, .. } => name,
            }
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct Attributes {
        pub point: Vec<Attribute>,
        pub cell: Vec<Attribute>,
    }
    #[derive(Clone, Debug)]
    pub struct PolyDataPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    pub type UnstructuredGridPiece = PolyDataPiece;
    #[derive(Clone, Debug)]
    pub struct Piece<P>(pub P);
    #[derive(Debug)]
    pub struct Error(pub String);
    impl<P: Clone> Piece<P> {
        pub fn load_piece_data(&self, _source: Option<&Path>) -> Result<P, Error> {
            Ok(self.0.clone())
        }
    }
    #[derive(Clone, Debug)]
    pub enum DataSet {
        PolyData { meta: Option<()>, pieces: Vec<Piece<PolyDataPiece>> },
        UnstructuredGrid { meta: Option<()>, pieces: Vec<Piece<UnstructuredGridPiece>> },
    }
    #[derive(Clone, Debug)]
    pub struct Vtk {
        pub title: String,
        pub data: DataSet,
    }
    thread_local! { static DISK: RefCell<BTreeMap<String, Vtk>> = RefCell::new(BTreeMap::new()); }
    impl Vtk {
        pub fn import(name: impl AsRef<Path>) -> Result<Vtk, Error> {
            let n = name.as_ref().to_string_lossy().to_string();
            DISK.with(|d| d.borrow().get(&n).cloned()).ok_or_else(|| Error(format!("no file {n}")))
        }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> {
            Ok(())
        }
    }
    /// for the harness
    pub fn put(name: &str, data: DataSet) {
        DISK.with(|d| d.borrow_mut().insert(name.to_string(), Vtk { title: String::new(), data }));
    }
    pub fn wipe() {
        DISK.with(|d| d.borrow_mut().clear());
    }
}
