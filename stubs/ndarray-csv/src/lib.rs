//! Wraps the real ndarray-csv: the text is read by it and by the csv crate; a cell "1000000 + k" then stands
//! for the k-th value the harness registered (a symbolic one, which text cannot hold).
use std::cell::RefCell;
use std::io::Read;

pub use real::ReadError;
thread_local! { static VALUES: RefCell<Vec<f64>> = RefCell::new(vec![]); }
pub const BASE: f64 = 1000000.0;
/// text of the cell for a value
pub fn cell(v: f64) -> String {
    VALUES.with(|t| {
        let mut t = t.borrow_mut();
        t.push(v);
        format!("{}", 1000000 + t.len() - 1)
    })
}
pub fn wipe() {
    VALUES.with(|t| t.borrow_mut().clear())
}
pub trait Lookup: Sized {
    fn lookup(self) -> Self;
}
impl Lookup for f64 {
    fn lookup(self) -> f64 {
        if self >= BASE {
            VALUES.with(|t| t.borrow()[(self - BASE) as usize])
        } else {
            self
        }
    }
}
pub trait Array2Reader {
    fn deserialize_array2<A: serde::de::DeserializeOwned + Lookup + Clone>(self, shape: (usize, usize)) -> Result<ndarray::Array2<A>, ReadError>;
    fn deserialize_array2_dynamic<A: serde::de::DeserializeOwned + Lookup + Clone>(self) -> Result<ndarray::Array2<A>, ReadError>;
}
impl<'a, R: Read> Array2Reader for &'a mut csv::Reader<R> {
    fn deserialize_array2<A: serde::de::DeserializeOwned + Lookup + Clone>(self, shape: (usize, usize)) -> Result<ndarray::Array2<A>, ReadError> {
        real::Array2Reader::deserialize_array2(self, shape).map(|x: ndarray::Array2<A>| x.mapv(|v| v.lookup()))
    }
    fn deserialize_array2_dynamic<A: serde::de::DeserializeOwned + Lookup + Clone>(self) -> Result<ndarray::Array2<A>, ReadError> {
        real::Array2Reader::deserialize_array2_dynamic(self).map(|x: ndarray::Array2<A>| x.mapv(|v| v.lookup()))
    }
}
