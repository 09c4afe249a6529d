//! The Python package of the repository, with its Rust module, in an interpreter within this process.
//! Symbolic values pass through Python unchanged (as floats and in arrays).
use crate::sym::*;
use ndarray::ArrayD;
use numpy::PyArrayDyn;
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyModule, PyTuple};
use std::sync::Once;

extern "C" {
    fn PyInit_upppp_rust() -> *mut pyo3::ffi::PyObject;
}
static START: Once = Once::new();

const PLOTLY: &str = r#"
class Figure:
    def __init__(self, json):
        self.json = json
        self.updates = []
    def plotly_update(self, style, layout):
        self.updates.append((style, layout))
def from_json(text):
    return Figure(text)
"#;

/// runs f with the interpreter and the package `up4`
pub fn with_up4<T>(f: impl for<'py> FnOnce(Python<'py>, &'py PyModule) -> T) -> T {
    START.call_once(|| unsafe { pyo3::ffi::Py_InitializeEx(0) });
    Python::with_gil(|py| {
        let sys = py.import("sys").unwrap();
        let modules: &PyDict = sys.getattr("modules").unwrap().downcast().unwrap();
        if !modules.contains("up4").unwrap() {
            sys.setattr("dont_write_bytecode", true).unwrap();
            let path = sys.getattr("path").unwrap();
            path.call_method1("insert", (0, env!("UP4_NUMPY"))).unwrap();
            path.call_method1("insert", (0, env!("UP4_MIRROR"))).unwrap();
            let m: &PyModule = unsafe { py.from_owned_ptr(PyInit_upppp_rust()) };
            modules.set_item("upppp_rust", m).unwrap();
            let io = PyModule::from_code(py, PLOTLY, "io.py", "plotly.io").unwrap();
            let p = PyModule::new(py, "plotly").unwrap();
            p.setattr("io", io).unwrap();
            modules.set_item("plotly", p).unwrap();
            modules.set_item("plotly.io", io).unwrap();
            py.import("numpy").unwrap();
            slots::redirect(py);
        }
        let up4 = py.import("up4").unwrap();
        f(py, up4)
    })
}
/// result of a call; a Python exception or a panic inside is an error (its text)
pub fn attempt<'py>(f: impl FnOnce() -> PyResult<&'py PyAny>) -> Result<&'py PyAny, String> {
    match catches(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(()) => Err("panic".into()),
    }
}
pub fn kwargs<'py>(py: Python<'py>, l: &[(&str, PyObject)]) -> &'py PyDict {
    let d = PyDict::new(py);
    for (k, v) in l {
        d.set_item(k, v).unwrap();
    }
    d
}
pub fn array(v: &PyAny) -> ArrayD<f64> {
    let a: &PyArrayDyn<f64> = v.extract().expect("an array");
    a.to_owned_array()
}
/// all numbers in a result: floats, arrays, lists, tuples and grids (data and weights)
pub fn numbers(v: &PyAny) -> Vec<f64> {
    if let Ok(x) = v.extract::<f64>() {
        return vec![x];
    }
    if v.extract::<&PyArrayDyn<f64>>().is_ok() {
        let a = array(v);
        let mut o: Vec<f64> = a.shape().iter().map(|x| *x as f64).collect();
        o.extend(a.iter());
        return o;
    }
    if v.hasattr("weights_to_numpy").unwrap() {
        let mut o = numbers(v.call_method0("to_numpy").unwrap());
        o.extend(numbers(v.call_method0("weights_to_numpy").unwrap()));
        return o;
    }
    if v.hasattr("to_numpy").unwrap() {
        return numbers(v.call_method0("to_numpy").unwrap());
    }
    v.iter().expect("a sequence").flat_map(|x| numbers(x.unwrap())).collect()
}
pub fn same(a: &[f64], b: &[f64], what: &str) {
    check(a.len() == b.len(), &format!("size of {what}"));
    if a.len() == b.len() {
        for (x, y) in a.iter().zip(b) {
            eq(*x, *y, what);
        }
    }
}
pub fn tuple<'py>(py: Python<'py>, v: Vec<PyObject>) -> &'py PyTuple {
    PyTuple::new(py, v)
}

// ---- arithmetic on symbolic numbers inside Python
// numpy's float64 (what elements of arrays are) is handled by the interpreter's slots of that type; these are
// redirected to (instrumented) functions here, which compute the same results for ordinary numbers.
mod slots {
    use pyo3::ffi::*;
    use pyo3::Python;
    use std::os::raw::c_int;
    pub static mut FLOAT64: *mut PyTypeObject = std::ptr::null_mut();
    static mut OLD: Option<PyNumberMethods> = None;
    static mut OLD_COMPARE: Option<richcmpfunc> = None;

    /// the number, if the object is one (a float64, float or int)
    unsafe fn number(o: *mut PyObject) -> Option<f64> {
        if Py_TYPE(o) == FLOAT64 || PyFloat_CheckExact(o) != 0 || (PyLong_CheckExact(o) != 0) {
            let v = PyFloat_AsDouble(o);
            if PyErr_Occurred().is_null() {
                return Some(v);
            }
            PyErr_Clear();
        }
        None
    }
    unsafe fn make(v: f64) -> *mut PyObject {
        let f = PyFloat_FromDouble(v);
        let r = PyObject_CallFunctionObjArgs(FLOAT64 as *mut PyObject, f, std::ptr::null_mut::<PyObject>());
        Py_DECREF(f);
        r
    }
    macro_rules! binary {
        ($name:ident, $slot:ident, $op:expr) => {
            unsafe extern "C" fn $name(a: *mut PyObject, b: *mut PyObject) -> *mut PyObject {
                match (number(a), number(b)) {
                    (Some(x), Some(y)) => {
                        let f: fn(f64, f64) -> f64 = $op;
                        make(f(x, y))
                    }
                    _ => (OLD.as_ref().unwrap().$slot.unwrap())(a, b),
                }
            }
        };
    }
    binary!(add, nb_add, |x, y| x + y);
    binary!(subtract, nb_subtract, |x, y| x - y);
    binary!(multiply, nb_multiply, |x, y| x * y);
    binary!(divide, nb_true_divide, |x, y| x / y);
    binary!(floor_divide, nb_floor_divide, |x, y| (x / y).floor());
    unsafe extern "C" fn negative(a: *mut PyObject) -> *mut PyObject {
        make(-PyFloat_AsDouble(a))
    }
    unsafe extern "C" fn absolute(a: *mut PyObject) -> *mut PyObject {
        make(PyFloat_AsDouble(a).abs())
    }
    unsafe extern "C" fn int(a: *mut PyObject) -> *mut PyObject {
        let v = PyFloat_AsDouble(a);
        if v.is_nan() || v.is_infinite() {
            return (OLD.as_ref().unwrap().nb_int.unwrap())(a);
        }
        PyLong_FromLongLong(v as i64)
    }
    unsafe extern "C" fn truth(a: *mut PyObject) -> c_int {
        (PyFloat_AsDouble(a) != 0.0) as c_int
    }
    unsafe extern "C" fn compare(a: *mut PyObject, b: *mut PyObject, op: c_int) -> *mut PyObject {
        match (number(a), number(b)) {
            (Some(x), Some(y)) => {
                let r = match op {
                    Py_LT => x < y,
                    Py_LE => x <= y,
                    Py_EQ => x == y,
                    Py_NE => x != y,
                    Py_GT => x > y,
                    _ => x >= y,
                };
                PyBool_FromLong(r as _)
            }
            _ => (OLD_COMPARE.unwrap())(a, b, op),
        }
    }
    pub fn redirect(py: Python) {
        unsafe {
            let t = py.import("numpy").unwrap().getattr("float64").unwrap().as_ptr() as *mut PyTypeObject;
            FLOAT64 = t;
            let n = (*t).tp_as_number;
            OLD = Some(std::ptr::read(n));
            OLD_COMPARE = (*t).tp_richcompare;
            (*n).nb_add = Some(add);
            (*n).nb_subtract = Some(subtract);
            (*n).nb_multiply = Some(multiply);
            (*n).nb_true_divide = Some(divide);
            (*n).nb_floor_divide = Some(floor_divide);
            (*n).nb_negative = Some(negative);
            (*n).nb_absolute = Some(absolute);
            (*n).nb_int = Some(int);
            (*n).nb_bool = Some(truth);
            (*t).tp_richcompare = Some(compare);
        }
    }
}
