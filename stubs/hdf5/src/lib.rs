//! Stand-in for the hdf5 crate (which cannot be fetched here): the part of its API that up4 uses, with the
//! files kept in memory. It follows what the real crate does: values are converted between the type in memory
//! and the type in the file (floats stored as integers are truncated), shapes are checked on reading, objects
//! that exist cannot be created again, and opening or reading what is not there is an error.
use ndarray::{Array, Array1, Array2, ArrayD, ArrayView, Dimension, IxDyn, SliceInfo, SliceInfoElem};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::{Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    F64,
    F32,
    I(u32),
    U(u32),
}
#[derive(Clone, Copy, Debug)]
pub enum Num {
    F(f64),
    I(i128),
}
/// a stored value in its file type
fn convert(n: Num, ty: Ty) -> Num {
    let int = |lo: i128, hi: i128| match n {
        Num::I(i) => Num::I(i.clamp(lo, hi)),
        Num::F(f) => Num::I((f as i64 as i128).clamp(lo, hi)),
    };
    match ty {
        Ty::F64 => match n {
            Num::I(i) => Num::F(i as f64),
            f => f,
        },
        Ty::F32 => match n {
            Num::I(i) => Num::F(i as f32 as f64),
            Num::F(f) => Num::F(f as f32 as f64),
        },
        Ty::I(b) => int(-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
        Ty::U(b) => int(0, (1i128 << b) - 1),
    }
}
pub trait H5Type: Copy + 'static {
    const TY: Ty;
    fn num(self) -> Num;
    fn of(n: Num) -> Self;
}
macro_rules! ints {
    ($($t:ty, $ty:expr);*) => {$(impl H5Type for $t {
        const TY: Ty = $ty;
        fn num(self) -> Num { Num::I(self as i128) }
        fn of(n: Num) -> Self { match convert(n, Self::TY) { Num::I(i) => i as $t, Num::F(f) => f as $t } }
    })*};
}
ints!(u8, Ty::U(8); u16, Ty::U(16); u32, Ty::U(32); u64, Ty::U(64); usize, Ty::U(64);
      i8, Ty::I(8); i16, Ty::I(16); i32, Ty::I(32); i64, Ty::I(64); isize, Ty::I(64));
impl H5Type for f64 {
    const TY: Ty = Ty::F64;
    fn num(self) -> Num {
        Num::F(self)
    }
    fn of(n: Num) -> Self {
        match n {
            Num::F(f) => f,
            Num::I(i) => i as f64,
        }
    }
}
impl H5Type for f32 {
    const TY: Ty = Ty::F32;
    fn num(self) -> Num {
        Num::F(self as f64)
    }
    fn of(n: Num) -> Self {
        match n {
            Num::F(f) => f as f32,
            Num::I(i) => i as f32,
        }
    }
}

#[derive(Clone)]
pub struct Value {
    pub ty: Ty,
    pub dims: Vec<usize>,
    pub data: Vec<Num>,
}
#[derive(Clone, Default)]
struct Node {
    groups: BTreeSet<String>,
    attrs: BTreeMap<String, Value>,
    sets: BTreeMap<String, Value>,
}
static DISK: Mutex<BTreeMap<String, Node>> = Mutex::new(BTreeMap::new());
fn disk() -> MutexGuard<'static, BTreeMap<String, Node>> {
    DISK.lock().unwrap_or_else(|e| e.into_inner())
}
/// everything in a file: kinds, names, types and shapes as text; all numbers
pub fn dump(name: &str) -> Option<(Vec<String>, Vec<f64>)> {
    let d = disk();
    let f = d.get(name)?;
    let mut t: Vec<String> = f.groups.iter().map(|g| format!("group {g}")).collect();
    let mut v = vec![];
    for (kind, m) in [("attribute", &f.attrs), ("dataset", &f.sets)] {
        for (n, x) in m {
            t.push(format!("{kind} {n} {:?} {:?}", x.ty, x.dims));
            v.extend(x.data.iter().map(|n| match n {
                Num::I(i) => *i as f64,
                Num::F(f) => *f,
            }));
        }
    }
    Some((t, v))
}
/// forget all files
pub fn wipe() {
    disk().clear()
}

pub struct Error(String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn err<T>(m: String) -> Result<T> {
    Err(Error(m))
}

/// a group; a file stands for its root group
#[derive(Clone)]
pub struct Group {
    file: String,
    path: String,
}
#[derive(Clone)]
pub struct File(Group);
impl std::ops::Deref for File {
    type Target = Group;
    fn deref(&self) -> &Group {
        &self.0
    }
}
impl File {
    pub fn create<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        let name = name.as_ref().to_string_lossy().to_string();
        disk().insert(name.clone(), Node::default());
        Ok(File(Group { file: name, path: String::new() }))
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
    pub fn open_rw<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        File::open(name)
    }
    pub fn append<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        File::open(&name).or_else(|_| File::create(&name))
    }
    pub fn create_excl<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        if File::open(&name).is_ok() {
            return err("the file exists".to_string());
        }
        File::create(name)
    }
    pub fn as_group(&self) -> Result<Group> {
        Ok(self.0.clone())
    }
    pub fn open<P: AsRef<std::path::Path>>(name: P) -> Result<File> {
        let name = name.as_ref().to_string_lossy().to_string();
        if !disk().contains_key(&name) {
            return err(format!("no file {name}"));
        }
        Ok(File(Group { file: name, path: String::new() }))
    }
}
impl Group {
    fn at(&self, n: &str) -> String {
        if let Some(n) = n.strip_prefix('/') {
            return n.to_string();
        }
        if self.path.is_empty() {
            n.to_string()
        } else {
            format!("{}/{}", self.path, n)
        }
    }
    pub fn filename(&self) -> String {
        self.file.clone()
    }
    pub fn name(&self) -> String {
        format!("/{}", self.path)
    }
    pub fn group(&self, n: &str) -> Result<Group> {
        let p = self.at(n);
        match disk().get(&self.file) {
            Some(f) if f.groups.contains(&p) => Ok(Group { file: self.file.clone(), path: p }),
            _ => err(format!("no group {p}")),
        }
    }
    pub fn create_group(&self, n: &str) -> Result<Group> {
        let p = self.at(n);
        if disk().get_mut(&self.file).map(|f| f.groups.insert(p.clone())) == Some(true) {
            Ok(Group { file: self.file.clone(), path: p })
        } else {
            err(format!("group {p} exists"))
        }
    }
    pub fn dataset(&self, n: &str) -> Result<Dataset> {
        let p = self.at(n);
        match disk().get(&self.file) {
            Some(f) if f.sets.contains_key(&p) => Ok(Container { file: self.file.clone(), path: p, attr: false }),
            _ => err(format!("no dataset {p}")),
        }
    }
    pub fn attr(&self, n: &str) -> Result<Attribute> {
        let p = self.at(n);
        match disk().get(&self.file) {
            Some(f) if f.attrs.contains_key(&p) => Ok(Container { file: self.file.clone(), path: p, attr: true }),
            _ => err(format!("no attribute {p}")),
        }
    }
    fn below(&self, names: &mut dyn Iterator<Item = &String>) -> Vec<String> {
        let pre = if self.path.is_empty() { String::new() } else { format!("{}/", self.path) };
        names.filter_map(|n| n.strip_prefix(&pre)).filter(|n| !n.is_empty() && !n.contains('/')).map(|n| n.to_string()).collect()
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        match disk().get(&self.file) {
            Some(f) => {
                let mut v = self.below(&mut f.groups.iter().chain(f.sets.keys()));
                v.sort();
                Ok(v)
            }
            None => err(format!("no file {}", self.file)),
        }
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        match disk().get(&self.file) {
            Some(f) => Ok(self.below(&mut f.attrs.keys())),
            None => err(format!("no file {}", self.file)),
        }
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        Ok(self.member_names()?.iter().filter_map(|n| self.group(n).ok()).collect())
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        Ok(self.member_names()?.iter().filter_map(|n| self.dataset(n).ok()).collect())
    }
    pub fn len(&self) -> u64 {
        self.member_names().map(|v| v.len() as u64).unwrap_or(0)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn link_exists(&self, n: &str) -> bool {
        let p = self.at(n);
        disk().get(&self.file).is_some_and(|f| f.groups.contains(&p) || f.sets.contains_key(&p))
    }
    pub fn unlink(&self, n: &str) -> Result<()> {
        let p = self.at(n);
        if !self.link_exists(n) {
            return err(format!("no {p}"));
        }
        let pre = format!("{p}/");
        if let Some(f) = disk().get_mut(&self.file) {
            f.groups.retain(|g| *g != p && !g.starts_with(&pre));
            f.sets.retain(|g, _| *g != p && !g.starts_with(&pre));
            f.attrs.retain(|g, _| !g.starts_with(&pre));
        }
        Ok(())
    }
    pub fn new_attr<T: H5Type>(&self) -> Empty {
        Empty { g: self.clone(), attr: true, ty: T::TY, dims: vec![] }
    }
    pub fn new_dataset<T: H5Type>(&self) -> Empty {
        Empty { g: self.clone(), attr: false, ty: T::TY, dims: vec![] }
    }
    pub fn new_attr_builder(&self) -> Builder {
        Builder { g: self.clone(), attr: true }
    }
    pub fn new_dataset_builder(&self) -> Builder {
        Builder { g: self.clone(), attr: false }
    }
}
fn store(g: &Group, attr: bool, n: &str, v: Value) -> Result<Container> {
    let p = g.at(n);
    let mut d = disk();
    let f = match d.get_mut(&g.file) {
        Some(f) => f,
        None => return err(format!("no file {}", g.file)),
    };
    let m = if attr { &mut f.attrs } else { &mut f.sets };
    if m.contains_key(&p) {
        return err(format!("{p} exists"));
    }
    m.insert(p.clone(), v);
    Ok(Container { file: g.file.clone(), path: p, attr })
}
pub trait Shape {
    fn dims(self) -> Vec<usize>;
}
impl Shape for usize {
    fn dims(self) -> Vec<usize> {
        vec![self]
    }
}
impl Shape for () {
    fn dims(self) -> Vec<usize> {
        vec![]
    }
}
impl Shape for (usize,) {
    fn dims(self) -> Vec<usize> {
        vec![self.0]
    }
}
impl Shape for (usize, usize) {
    fn dims(self) -> Vec<usize> {
        vec![self.0, self.1]
    }
}
impl Shape for (usize, usize, usize) {
    fn dims(self) -> Vec<usize> {
        vec![self.0, self.1, self.2]
    }
}
impl<const N: usize> Shape for [usize; N] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl Shape for &[usize] {
    fn dims(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl Shape for Vec<usize> {
    fn dims(self) -> Vec<usize> {
        self
    }
}
/// how storage options of builders are accepted (they do not change what is stored)
macro_rules! options {
    ($t:ty) => {
        impl $t {
            pub fn deflate(self, _: u8) -> Self {
                self
            }
            pub fn shuffle(self) -> Self {
                self
            }
            pub fn fletcher32(self) -> Self {
                self
            }
            pub fn chunk<S: Shape>(self, _: S) -> Self {
                self
            }
            pub fn no_chunk(self) -> Self {
                self
            }
            pub fn blosc_zstd<B>(self, _: u8, _: B) -> Self {
                self
            }
            pub fn blosc_lz4<B>(self, _: u8, _: B) -> Self {
                self
            }
            pub fn blosc_zlib<B>(self, _: u8, _: B) -> Self {
                self
            }
            pub fn lzf(self) -> Self {
                self
            }
            pub fn track_times(self, _: bool) -> Self {
                self
            }
        }
    };
}
options!(Empty);
options!(Builder);
options!(Full);
/// which part of a dataset is read
pub trait Part {
    fn part(self, nd: usize) -> Vec<SliceInfoElem>;
}
impl<I: AsRef<[SliceInfoElem]>, A: Dimension, B: Dimension> Part for SliceInfo<I, A, B> {
    fn part(self, _: usize) -> Vec<SliceInfoElem> {
        self.as_ref().to_vec()
    }
}
impl Part for std::ops::RangeFull {
    fn part(self, nd: usize) -> Vec<SliceInfoElem> {
        vec![SliceInfoElem::from(..); nd]
    }
}
impl Part for std::ops::Range<usize> {
    fn part(self, nd: usize) -> Vec<SliceInfoElem> {
        let mut v = vec![SliceInfoElem::from(self)];
        v.resize(nd, SliceInfoElem::from(..));
        v
    }
}
pub struct Empty {
    g: Group,
    attr: bool,
    ty: Ty,
    dims: Vec<usize>,
}
impl Empty {
    pub fn shape<S: Shape>(mut self, n: S) -> Self {
        self.dims = n.dims();
        self
    }
    pub fn create(&self, n: &str) -> Result<Container> {
        let k = self.dims.iter().product();
        store(&self.g, self.attr, n, Value { ty: self.ty, dims: self.dims.clone(), data: vec![convert(Num::I(0), self.ty); k] })
    }
}
pub struct Builder {
    g: Group,
    attr: bool,
}
impl Builder {
    pub fn empty<T: H5Type>(self) -> Empty {
        Empty { g: self.g, attr: self.attr, ty: T::TY, dims: vec![] }
    }
    pub fn with_data<'d, A, T, D>(&self, arr: A) -> Full
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let v: ArrayView<'d, T, D> = arr.into();
        Full {
            g: self.g.clone(),
            attr: self.attr,
            v: Value { ty: T::TY, dims: v.shape().to_vec(), data: v.iter().map(|x| x.num()).collect() },
        }
    }
}
pub struct Full {
    g: Group,
    attr: bool,
    v: Value,
}
impl Full {
    pub fn create(&self, n: &str) -> Result<Container> {
        store(&self.g, self.attr, n, self.v.clone())
    }
}
#[derive(Clone)]
pub struct Container {
    file: String,
    path: String,
    attr: bool,
}
pub type Dataset = Container;
pub type Attribute = Container;
impl Container {
    fn value(&self) -> Result<Value> {
        let d = disk();
        let v = d.get(&self.file).and_then(|f| if self.attr { f.attrs.get(&self.path) } else { f.sets.get(&self.path) });
        v.cloned().ok_or_else(|| Error(format!("{} is gone", self.path)))
    }
    pub fn shape(&self) -> Vec<usize> {
        self.value().map(|v| v.dims).unwrap_or_default()
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn is_scalar(&self) -> bool {
        self.ndim() == 0
    }
    pub fn name(&self) -> String {
        format!("/{}", self.path)
    }
    pub fn filename(&self) -> String {
        self.file.clone()
    }
    pub fn as_reader(&self) -> &Self {
        self
    }
    pub fn as_writer(&self) -> &Self {
        self
    }
    pub fn read_dyn<T: H5Type>(&self) -> Result<ArrayD<T>> {
        let v = self.value()?;
        Ok(ArrayD::from_shape_vec(IxDyn(&v.dims), v.data.into_iter().map(T::of).collect()).unwrap())
    }
    pub fn read<T: H5Type, D: Dimension>(&self) -> Result<Array<T, D>> {
        self.read_dyn()?.into_dimensionality().map_err(|e| Error(format!("{}: {e}", self.path)))
    }
    pub fn read_slice<T: H5Type, S: Part, D: Dimension>(&self, s: S) -> Result<Array<T, D>> {
        let a: ArrayD<T> = self.read_dyn()?;
        let info = SliceInfo::<Vec<SliceInfoElem>, IxDyn, IxDyn>::try_from(s.part(a.ndim())).map_err(|e| Error(format!("{e}")))?;
        a.slice(info).to_owned().into_dimensionality().map_err(|e| Error(format!("{}: {e}", self.path)))
    }
    pub fn read_slice_1d<T: H5Type, S: Part>(&self, s: S) -> Result<Array1<T>> {
        self.read_slice(s)
    }
    pub fn read_slice_2d<T: H5Type, S: Part>(&self, s: S) -> Result<Array2<T>> {
        self.read_slice(s)
    }
    fn put(&self, data: Vec<Num>) -> Result<()> {
        let mut d = disk();
        let v = d
            .get_mut(&self.file)
            .and_then(|f| if self.attr { f.attrs.get_mut(&self.path) } else { f.sets.get_mut(&self.path) });
        match v {
            Some(v) if v.data.len() == data.len() => {
                v.data = data.into_iter().map(|n| convert(n, v.ty)).collect();
                Ok(())
            }
            Some(_) => err(format!("{} has another size", self.path)),
            None => err(format!("{} is gone", self.path)),
        }
    }
    pub fn write<'d, A, T, D>(&self, arr: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        let v: ArrayView<'d, T, D> = arr.into();
        if v.shape() != self.shape() {
            return err(format!("{} has another shape", self.path));
        }
        self.put(v.iter().map(|x| x.num()).collect())
    }
    pub fn write_raw<T: H5Type>(&self, arr: &[T]) -> Result<()> {
        self.put(arr.iter().map(|x| x.num()).collect())
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        Ok(self.value()?.data.into_iter().map(T::of).collect())
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        let v = self.value()?;
        if v.dims.len() != 1 {
            return err(format!("{} has {} dimensions", self.path, v.dims.len()));
        }
        Ok(v.data.into_iter().map(T::of).collect())
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        let v = self.value()?;
        if v.dims.len() != 2 {
            return err(format!("{} has {} dimensions", self.path, v.dims.len()));
        }
        Ok(Array::from_shape_vec((v.dims[0], v.dims[1]), v.data.into_iter().map(T::of).collect()).unwrap())
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let v = self.value()?;
        if !v.dims.is_empty() {
            return err(format!("{} is not a scalar", self.path));
        }
        Ok(T::of(v.data[0]))
    }
    pub fn write_scalar<T: H5Type>(&self, x: &T) -> Result<()> {
        let mut d = disk();
        let v = d
            .get_mut(&self.file)
            .and_then(|f| if self.attr { f.attrs.get_mut(&self.path) } else { f.sets.get_mut(&self.path) });
        match v {
            Some(v) if v.dims.is_empty() => {
                v.data = vec![convert(x.num(), v.ty)];
                Ok(())
            }
            _ => err(format!("{} is not a scalar", self.path)),
        }
    }
}
