//! C40: grids built and read in Python.
use crate::h_data::{store, FILE};
use crate::py::*;
use crate::sym::*;
use crate::world::*;
use crate::Entry;
use numpy::PyArrayDyn;
use pyo3::prelude::*;
use pyo3::types::PyModule;
use upppp_rust::grid::*;
use upppp_rust::libgrid::{PyGrid, PyVecGrid};

pub const ALL: &[Entry] = &[
    ("c40_limits", c40_limits),
    ("c40_sizes", c40_sizes),
    ("c40_refused", c40_refused),
    ("c40_static", c40_static),
    ("c40_read", c40_read),
    ("c40_places", c40_places),
    ("c40_outliers", c40_outliers),
    ("c40_vector", c40_vector),
];

fn flat3(a: &ndarray::Array3<f64>) -> Vec<f64> {
    let mut o: Vec<f64> = a.shape().iter().map(|x| *x as f64).collect();
    o.extend(a.iter());
    o
}
fn flat2(a: &ndarray::Array2<f64>) -> Vec<f64> {
    let mut o: Vec<f64> = a.shape().iter().map(|x| *x as f64).collect();
    o.extend(a.iter());
    o
}
fn flat1(a: &ndarray::Array1<f64>) -> Vec<f64> {
    let mut o = vec![a.len() as f64];
    o.extend(a.iter());
    o
}
fn rust(cyl: bool, n: [usize; 3], l: [f64; 6]) -> Box<dyn GridFunctions3D> {
    let d = Dim::ThreeD([[l[0], l[1]], [l[2], l[3]], [l[4], l[5]]]);
    if cyl {
        Box::new(CylindricalGrid3D::new(n, d, "volume"))
    } else {
        Box::new(CartesianGrid3D::new(n, d))
    }
}
/// the grid made in Python is the one made in Rust
fn same_grid(g: &PyAny, cyl: bool, n: [usize; 3], l: [f64; 6]) {
    let w = rust(cyl, n, l);
    let g: PyRef<PyGrid> = match g.extract() {
        Ok(g) => g,
        Err(_) => return check(false, "not a grid"),
    };
    check(*g.grid.get_cells() == n, &format!("number of cells {:?}, not {n:?}", g.grid.get_cells()));
    if *g.grid.get_cells() != n {
        return;
    }
    check(cyl == g.grid.as_ref().is_cylindrical(), "kind of the grid");
    for k in 0..3 {
        for j in 0..2 {
            eq(g.grid.get_limits()[k][j], w.get_limits()[k][j], "limits of the grid");
        }
    }
    for (a, b) in [(g.grid.get_xpositions(), w.get_xpositions()), (g.grid.get_ypositions(), w.get_ypositions()), (g.grid.get_zpositions(), w.get_zpositions())] {
        same(&flat1(a), &flat1(b), "positions of the cells");
    }
    if n[0] < 20 {
        same(&flat3(g.grid.get_data()), &vec![vec![n[0] as f64, n[1] as f64, n[2] as f64], vec![0.0; n[0] * n[1] * n[2]]].concat(), "contents of a new grid");
    }
}
trait Kind {
    fn is_cylindrical(&self) -> bool;
}
impl Kind for dyn GridFunctions3D {
    /// only cylindrical grids have angles as second limits
    fn is_cylindrical(&self) -> bool {
        let l = self.get_limits()[1];
        (l[0] + 3.14159).abs() < 1e-4 && (l[1] - 3.14159).abs() < 1e-4
    }
}

/// limits as a list or an array
fn given<'py>(py: Python<'py>, v: &[f64], array: bool) -> PyObject {
    if array {
        py.import("numpy").unwrap().call_method1("array", (v.to_vec(), "float64")).unwrap().to_object(py)
    } else {
        v.to_vec().to_object(py)
    }
}
fn counts<'py>(py: Python<'py>, n: [usize; 3], array: bool) -> PyObject {
    if array {
        py.import("numpy").unwrap().call_method1("array", (n.to_vec(), "int64")).unwrap().to_object(py)
    } else {
        n.to_vec().to_object(py)
    }
}
/// extent of the data: concrete but for one symbolic axis
fn extent(name: &str, sy: usize, lo: i64, base: [f64; 6]) -> [f64; 6] {
    let mut e = base;
    if sy < 3 {
        let a = real(&format!("{name}lo"), lo, 8);
        let d = real(&format!("{name}d"), 1, 4);
        e[2 * sy] = a;
        e[2 * sy + 1] = a + d;
    }
    e
}
fn dataset(e: [f64; 6]) {
    let mut m = crate::h_data::cloud(2, 2, false, 0);
    m.lo = [e[0], e[2], e[4]];
    m.hi = [e[1], e[3], e[5]];
    store(&m, flag("particles"));
}
const DATA: [f64; 6] = [1.5, 4.0, -2.0, 3.5, 0.25, 7.0];
const OTHER: [f64; 6] = [0.5, 3.5, 1.0, 4.25, 2.0, 3.75];
/// calls up4.Grid with a source of limits; the limits that follow from it
fn source<'py>(py: Python<'py>, up4: &'py PyModule, cells_only: bool) -> (Vec<(&'static str, PyObject)>, [f64; 6]) {
    let sy = choose("axis", 3);
    let array = cells_only || flag("array");
    let src = choose("source", 4);
    let mut kw = vec![];
    let data = |kw: &mut Vec<(&str, PyObject)>| {
        let d = up4.getattr("Data").unwrap().call1((FILE,)).unwrap();
        kw.push(("data", d.to_object(py)));
    };
    let pair = |kw: &mut Vec<(&'static str, PyObject)>, l: &[f64; 6], k: usize| {
        kw.push((["xlim", "ylim", "zlim"][k], given(py, &l[2 * k..2 * k + 2], array)));
    };
    let l = match src {
        0 => {
            // the data, and limits for some axes
            let mask = choose("mask", 8);
            let which = flag("which");
            let mut e = extent("e", if which { sy } else { 3 }, -8, DATA);
            let o = extent("o", if which { 3 } else { sy }, -8, OTHER);
            dataset(e);
            data(&mut kw);
            for k in 0..3 {
                if mask >> k & 1 == 1 {
                    pair(&mut kw, &o, k);
                    e[2 * k] = o[2 * k];
                    e[2 * k + 1] = o[2 * k + 1];
                }
            }
            e
        }
        1 => {
            let o = extent("o", sy, -8, OTHER);
            kw.push(("limits", given(py, &o, array)));
            o
        }
        2 => {
            let o = extent("o", sy, -8, OTHER);
            for k in 0..3 {
                pair(&mut kw, &o, k);
            }
            o
        }
        _ => {
            let o = extent("o", sy, -8, OTHER);
            dataset(DATA);
            data(&mut kw);
            kw.push(("limits", given(py, &o, array)));
            o
        }
    };
    (kw, l)
}
fn style(py: Python, kw: &mut Vec<(&'static str, PyObject)>) -> bool {
    let cyl = match choose("style", 3) {
        0 => return false,
        1 => false,
        _ => true,
    };
    kw.push(("grid_style", if cyl { "cylindrical" } else { "cartesian" }.to_object(py)));
    cyl
}
/// limits and numbers of cells, given or by default
fn c40_limits() {
    with_up4(|py, up4| {
        let (mut kw, l) = source(py, up4, false);
        let cyl = style(py, &mut kw);
        let mut n = [50, 50, 50];
        if flag("cells") {
            n = [3, 2, 4];
            kw.push(("num_cells", counts(py, n, flag("cells_array"))));
        } else {
            // the default is large: not for every kind of limits
            assume(!cyl && kw.len() == 2);
        }
        match attempt(|| up4.getattr("Grid").unwrap().call((), Some(kwargs(py, &kw)))) {
            Ok(g) => {
                cover("grid");
                same_grid(g, cyl, n, l)
            }
            Err(e) => check(false, &format!("a grid was refused: {e}")),
        }
    });
}
/// the number of cells follows from the size of a cell
fn c40_sizes() {
    with_up4(|py, up4| {
        let (mut kw, l) = source(py, up4, true);
        let cyl = flag("cyl");
        if cyl {
            kw.push(("grid_style", "cylindrical".to_object(py)));
        }
        let size = [0.75, 0.5, 1.0];
        kw.push(("cell_size", given(py, &size, flag("array"))));
        let n = [0, 1, 2].map(|k| ((l[2 * k + 1] - l[2 * k]) / size[k]) as usize);
        match attempt(|| up4.getattr("Grid").unwrap().call((), Some(kwargs(py, &kw)))) {
            Ok(g) => {
                cover("grid");
                same_grid(g, cyl, n, l)
            }
            Err(e) => check(false, &format!("a grid was refused: {e}")),
        }
    });
}
/// contradictory or incomplete limits are refused
fn c40_refused() {
    with_up4(|py, up4| {
        let mut kw: Vec<(&str, PyObject)> = vec![];
        let a = real("a", -8, 8);
        let b = real("b", -8, 8);
        let f = |v: &[f64]| v.to_vec().to_object(py);
        let n = choose("axis", 3);
        let lim = ["xlim", "ylim", "zlim"];
        let mut ok = false;
        match choose("case", 9) {
            0 => {
                // limits of one axis in any order
                for k in 0..3 {
                    kw.push((lim[k], if k == n { f(&[a, b]) } else { f(&[1.0, 2.0]) }));
                }
                ok = a < b;
                if a == b {
                    return; // an empty grid
                }
            }
            1 => {
                let mask = choose("mask", 7);
                for k in 0..3 {
                    if mask >> k & 1 == 1 {
                        kw.push((lim[k], f(&[1.0, 2.0])));
                    }
                }
            }
            2 => {
                kw.push(("limits", f(&OTHER)));
                kw.push((lim[n], f(&[1.0, 2.0])));
            }
            3 => {
                kw.push(("limits", f(&OTHER)));
                kw.push(("num_cells", vec![2; if flag("more") { 4 } else { 2 }].to_object(py)));
            }
            4 => {
                kw.push(("limits", f(&OTHER)));
                kw.push(("grid_style", "round".to_object(py)));
            }
            5 => {
                kw.push(("limits", f(&OTHER)));
                kw.push(("cell_size", f(&[1.0, 1.0])));
            }
            6 => {
                for k in 0..3 {
                    kw.push((lim[k], if k == n { f(&[0.0, 1.0, 2.0]) } else { f(&[1.0, 2.0]) }));
                }
            }
            7 => kw.push(("data", 5.to_object(py))),
            _ => {
                kw.push(("limits", (1.0, 2.0).to_object(py)));
            }
        }
        if !kw.iter().any(|k| k.0 == "num_cells") {
            kw.push(("num_cells", vec![2, 2, 2].to_object(py)));
        }
        if flag("cyl") && !kw.iter().any(|k| k.0 == "grid_style") {
            kw.push(("grid_style", "cylindrical".to_object(py)));
        }
        match attempt(|| up4.getattr("Grid").unwrap().call((), Some(kwargs(py, &kw)))) {
            Ok(_) => {
                cover("accepted");
                check(ok, "contradictory or incomplete limits were accepted")
            }
            Err(e) => {
                cover("refused");
                check(!ok, &format!("a grid was refused: {e}"));
                check(e != "panic" && !e.contains("Panic"), "refusal is an ordinary error");
            }
        }
    });
}
/// the four static constructors
fn c40_static() {
    with_up4(|py, up4| {
        let sy = choose("axis", 3);
        let e = extent("e", sy, -8, DATA);
        let n = [3, 2, 4];
        let cyl = flag("cyl");
        let cls = up4.getattr("Grid").unwrap();
        let mode = choose("mode", 3);
        let mut args: Vec<PyObject> = vec![];
        let name = if flag("data") {
            dataset(e);
            args.push(up4.getattr("Data").unwrap().call1((FILE,)).unwrap().to_object(py));
            args.push(counts(py, n, flag("array")));
            if cyl { "cylindrical3d_from_data" } else { "cartesian3d_from_data" }
        } else {
            args.push(counts(py, n, flag("array")));
            args.push(given(py, &e, flag("lim_array")));
            if cyl { "cylindrical3d" } else { "cartesian3d" }
        };
        let mut kw: Vec<(&str, PyObject)> = vec![];
        if cyl && mode == 1 {
            args.push("volume".to_object(py));
        }
        if cyl && mode == 2 {
            kw.push(("mode", "volume".to_object(py)));
        }
        match attempt(|| cls.call_method(name, tuple(py, args), Some(kwargs(py, &kw)))) {
            Ok(g) => {
                cover("grid");
                same_grid(g, cyl, n, e)
            }
            Err(e) => check(false, &format!("{name} failed: {e}")),
        }
    });
}

/// a grid with contents (one symbolic cell) in Python and the same one in Rust
fn filled(cyl: bool, n: [usize; 3], name: &str) -> Box<dyn GridFunctions3D> {
    let mut g = rust(cyl, n, DATA);
    let mut d = g.get_data().clone();
    let mut w = g.get_weights().clone();
    for (i, v) in d.iter_mut().enumerate() {
        *v = (i * i % 7) as f64 - 2.0 + i as f64 / 8.0;
    }
    for (i, v) in w.iter_mut().enumerate() {
        *v = 1.0 + (i * 5 % 3) as f64;
    }
    let c = [[0, 0, 0], [1, 0, 2], [n[0] - 1, n[1] - 1, n[2] - 1]][choose("cell", 3)];
    d[c] = maybe_nan(&format!("{name}v"), -8, 8);
    w[c] = real(&format!("{name}w"), 1, 8);
    g.set_data(d);
    g.set_weights(w);
    g
}
fn put<'py>(py: Python<'py>, g: &Box<dyn GridFunctions3D>) -> &'py PyAny {
    Py::new(py, PyGrid { grid: g.clone() }).unwrap().into_ref(py)
}
fn index<'py>(py: Python<'py>, i: usize) -> PyObject {
    i.to_object(py)
}
/// everything that is read from a grid
fn reading(py: Python, v: &PyAny, g: &dyn GridFunctions3D, k: usize, at: &[usize; 4]) -> (Result<Vec<f64>, String>, Vec<f64>, &'static str) {
    let axis = at[0];
    let n = g.get_cells().clone();
    let name = ["to_numpy", "weights_to_numpy", "cell_positions", "shape", "slice", "collapse", "slice_pos", "xpositions", "ypositions", "zpositions", "collapse_two"][k];
    let mut args = vec![];
    let x = g.get_data();
    let want = match k {
        0 => flat3(x),
        1 => flat3(g.get_weights()),
        2 => [flat1(g.get_xpositions()), flat1(g.get_ypositions()), flat1(g.get_zpositions())].concat(),
        3 => n.iter().map(|x| *x as f64).collect(),
        4 => {
            let i = at[1] % n[axis];
            args = vec![index(py, axis), index(py, i)];
            // not through slice_idx: the cells themselves
            let s: Vec<usize> = (0..3).filter(|k| *k != axis).map(|k| n[k]).collect();
            let mut o = vec![s[0] as f64, s[1] as f64];
            for ((a, b, c), v) in x.indexed_iter() {
                if [a, b, c][axis] == i {
                    o.push(*v);
                }
            }
            o
        }
        5 => {
            args = vec![index(py, axis)];
            flat2(&g.collapse(axis))
        }
        6 => {
            let l = g.get_limits()[axis];
            let p = l[0] + (l[1] - l[0]) * [0.0, 0.3, 0.7, 1.0][at[2]];
            args = vec![index(py, axis), p.to_object(py)];
            match catches(|| flat2(&g.slice(axis, p))) {
                Ok(v) => v,
                Err(()) => vec![-1.0],
            }
        }
        7 => flat1(g.get_xpositions()),
        8 => flat1(g.get_ypositions()),
        9 => flat1(g.get_zpositions()),
        _ => {
            let other = (axis + 1 + at[3]) % 3;
            args = vec![index(py, axis), index(py, other)];
            flat1(&g.collapse_two(axis, other))
        }
    };
    (attempt(|| v.call_method1(name, tuple(py, args))).map(numbers), want, name)
}
/// axis, index, place, other axis of a reading
fn places(k: usize) -> [usize; 4] {
    let axis = if [4, 5, 6, 10].contains(&k) { choose("axis", 3) } else { 0 };
    [axis, if k == 4 { choose("index", [2, 3, 4][axis]) } else { 0 }, if k == 6 { choose("place", 4) } else { 0 }, if k == 10 { choose("other", 2) } else { 0 }]
}
fn c40_read() {
    let cyl = flag("cyl");
    let g = filled(cyl, [2, 3, 4], "");
    with_up4(|py, _| {
        let v = put(py, &g);
        for r in 0..2 {
            let k = if r == 0 { choose("what", 11) } else { 0 };
            let at = places(k);
            let (got, want, name) = reading(py, v, g.as_ref(), k, &at);
            match got {
                Ok(x) => {
                    cover(name);
                    same(&x, &want, &format!("{name} in Python"))
                }
                Err(e) => check(false, &format!("{name} failed: {e}")),
            }
        }
    });
}
fn c40_places() {
    let cyl = flag("cyl");
    let n = [2, 3, 4];
    let g = rust(cyl, n, DATA);
    let axis = choose("axis", 3);
    let mut p = [2.5, 0.5, 3.0];
    p[axis] = if flag("nan") { NAN } else { real("p", -8, 16) };
    with_up4(|py, _| {
        let v = put(py, &g);
        let inside = g.is_inside(p);
        match attempt(|| v.call_method1("is_inside", (p.to_vec(),))) {
            Ok(x) => check(x.extract::<bool>().unwrap() == inside, "is_inside in Python"),
            Err(e) => check(false, &format!("is_inside failed: {e}")),
        }
        match (attempt(|| v.call_method1("cell_id", (p[0], p[1], p[2]))), g.cell_id(p)) {
            (Ok(x), Ok(c)) => {
                cover("cell");
                check(x.extract::<Vec<usize>>().unwrap() == c.to_vec(), "cell_id in Python");
            }
            (Err(_), Err(_)) => cover("outside"),
            (_, r) => check(false, &format!("cell_id: inside {}", r.is_ok())),
        }
    });
}
fn c40_outliers() {
    let cyl = flag("cyl");
    let mut g = filled(cyl, [3, 3, 4], "");
    let mode = choose("mode", 3);
    let t = real("t", 0, 8);
    with_up4(|py, _| {
        let v = put(py, &g);
        let r = if flag("keywords") {
            attempt(|| v.call_method("remove_outliers", (), Some(kwargs(py, &[("threshold", t.to_object(py)), ("mode", mode.to_object(py))]))))
        } else {
            attempt(|| v.call_method1("remove_outliers", (mode, t)))
        };
        let w = catches(|| g.outlier_removal(t, mode));
        check(r.is_ok() == w.is_ok(), "outlier removal fails in one of the languages");
        if r.is_ok() {
            cover("removed");
            same(&numbers(v), &[flat3(g.get_data()), flat3(g.get_weights())].concat(), "grid without outliers");
        }
    });
}
fn c40_vector() {
    let cyl = flag("cyl");
    let n = [2, 3, 4];
    let mut g = VectorGrid::new(rust(cyl, n, DATA));
    let at = choose("component", 3);
    let c = [[0, 0, 0], [1, 0, 2], [1, 2, 3]][choose("cell", 3)];
    for k in 0..3 {
        let mut d = ndarray::Array3::from_shape_fn((2, 3, 4), |(a, b, c)| (a * 12 + b * 4 + c) as f64 + 50.0 * k as f64);
        let mut w = ndarray::Array3::from_shape_fn((2, 3, 4), |(a, b, c)| 1.0 + ((a + b * 2 + c + k) % 3) as f64);
        if k == at {
            d[c] = maybe_nan("v", -8, 8);
            w[c] = real("w", 1, 8);
        }
        g.data[k].set_data(d);
        g.data[k].set_weights(w);
    }
    let comp: Vec<Box<dyn GridFunctions3D>> = g.data.iter().map(|x| x.clone()).collect();
    with_up4(|py, _| {
        let v: &PyAny = Py::new(py, PyVecGrid { grid: g }).unwrap().into_ref(py);
        let k = [0, 2, 3, 4, 5, 6][choose("what", 6)];
        if k == 2 || k == 3 {
            let (got, want, name) = reading(py, v, comp[0].as_ref(), k, &[0; 4]);
            match got {
                Ok(x) => same(&x, &want, &format!("{name} of a vector grid in Python")),
                Err(e) => check(false, &format!("{name} of a vector grid failed: {e}")),
            }
            return cover("about");
        }
        // the three components one after the other
        let at = places(k);
        let mut all = vec![];
        let mut result = None;
        let mut what = "";
        for g in &comp {
            let (got, want, name) = reading(py, v, g.as_ref(), k, &at);
            all.extend(want);
            what = name;
            result = Some(got);
        }
        match result.unwrap() {
            Ok(x) => {
                cover("components");
                same(&x, &all, &format!("{what} of a vector grid in Python"))
            }
            Err(e) => check(false, &format!("{what} of a vector grid failed: {e}")),
        }
    });
}
#[allow(unused)]
type _A = PyArrayDyn<f64>;
#[allow(unused)]
fn _w(_: Mem) {}
