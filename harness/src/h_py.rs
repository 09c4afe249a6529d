//! C38-...: the Python package does what the Rust library does.
use crate::h_data::{cloud, store, FILE};
use crate::py::*;
use crate::scene::{LIM, N};
use crate::sym::*;
use crate::Entry;
use numpy::PyArrayDyn;
use pyo3::prelude::*;
use pyo3::types::PyModule;
use upppp_rust::datamanager::{DataManager, Manager, PData, TData};
use upppp_rust::grid::*;
use upppp_rust::{ParticleSelector, Selector};

pub const ALL: &[Entry] = &[("c38_defaults", c38_defaults), ("c38_options", c38_options),
    ("c38_window", c38_window),
    ("c39_single", c39_single),
    ("c39_slice", c39_slice),
    ("c39_list", c39_list),
    ("c39_iterate", c39_iterate),
    ("c39_about", c39_about),
];

fn grid_of(cyl: bool) -> Box<dyn GridFunctions3D> {
    if cyl {
        Box::new(CylindricalGrid3D::new([2, 4, 2], Dim::ThreeD([[-1.5, 3.5], [-1.5, 3.5], [-6.0, 6.0]]), "volume"))
    } else {
        Box::new(CartesianGrid3D::new(N, Dim::ThreeD(LIM)))
    }
}
fn pygrid<'py>(up4: &'py PyModule, cyl: bool) -> &'py PyAny {
    let c = up4.getattr("Grid").unwrap();
    let r = if cyl {
        c.call_method1("cylindrical3d", (vec![2, 4, 2], vec![-1.5, 3.5, -1.5, 3.5, -6.0, 6.0]))
    } else {
        let l: Vec<f64> = LIM.iter().flatten().copied().collect();
        c.call_method1("cartesian3d", (N.to_vec(), l))
    };
    r.unwrap()
}
fn flat(g: &dyn GridFunctions3D) -> Vec<f64> {
    let s: Vec<f64> = g.get_data().shape().iter().map(|x| *x as f64).collect();
    let mut o = s.clone();
    o.extend(g.get_data().iter());
    o.extend(&s);
    o.extend(g.get_weights().iter());
    o
}
fn arr(a: &ndarray::Array1<f64>) -> Vec<f64> {
    let mut o = vec![a.len() as f64];
    o.extend(a.iter());
    o
}
const METHODS: usize = 16;
/// name of a method, its positional and optional arguments (with values for them), and what it should return
fn method(
    py: Python, m: &mut dyn Manager, k: usize, g: Box<dyn GridFunctions3D>, pg: &PyAny, s: &ParticleSelector, given: bool,
) -> (&'static str, Vec<PyObject>, Vec<(&'static str, PyObject)>, Result<Vec<f64>, ()>) {
    let gr = || vec![pg.to_object(py)];
    let f = |v: f64| v.to_object(py);
    let u = |v: usize| v.to_object(py);
    let t = |v: &str| v.to_object(py);
    match k {
        0 => ("vectorfield", gr(), vec![], catches(|| {
            m.vectorfield(g, s).data.iter().flat_map(|c| {
                let v = flat(c.as_ref());
                v[..v.len() / 2].to_vec()
            }).collect()
        })),
        1 => {
            let (mode, a, b) = if given { ("y", 0.0, 1.0) } else { ("absolute", -1000000.0, 1000000.0) };
            ("velocityfield", gr(), vec![("mode", t(mode)), ("min_velocity", f(a)), ("max_velocity", f(b))],
             catches(|| flat(m.velocityfield(g, s, mode, a, b).as_ref())))
        }
        2 => ("numberfield", gr(), vec![], catches(|| flat(m.numberfield(g, s).as_ref()))),
        3 => {
            let v = if given { 1.5 } else { 0.0 };
            ("occupancyfield", gr(), vec![("min_vel", f(v))], catches(|| flat(m.occupancyfield(g, s, v).as_ref())))
        }
        4 => ("mean_velocity", vec![], vec![], catches(|| vec![m.mean_velocity(s)])),
        5 => ("dispersion", vec![pg.to_object(py), f(0.75)], vec![], catches(|| {
            let (g, x) = m.dispersion(g, s, 0.75);
            let mut v = flat(g.as_ref());
            v.push(x);
            v
        })),
        6 => {
            let (n, l) = if given { (4, 2.5) } else { (100, 0.0) };
            ("histogram", gr(), vec![("property", t("velocity")), ("bins", u(n)), ("limit", f(l))], catches(|| {
                let (h, b) = m.histogram(g, s, "velocity", l, n);
                [arr(&h), arr(&b)].concat()
            }))
        }
        7 => {
            let mode = if given { "x" } else { "xyz" };
            ("granular_temperature", gr(), vec![("mode", t(mode))],
             catches(|| flat(m.granular_temperature_field(g, s, mode).as_ref())))
        }
        8 => {
            let (a, b, n) = if given { (2, 1, 0) } else { (0, 1, 10) };
            ("lacey_mixing_index", gr(), vec![("type_a", u(a)), ("type_b", u(b)), ("threshold", u(n))], catches(|| {
                let (x, y) = m.lacey_mixing(g, s, a, b, n);
                [arr(&x), arr(&y)].concat()
            }))
        }
        9 => {
            let a = if given { 2 } else { 0 };
            ("circulation_time", vec![f(0.25)], vec![("axis", u(a))], catches(|| m.circulation_time(s, a, 0.25)))
        }
        10 => {
            let a = if given { 2 } else { 0 };
            ("circulation_time_two_boundary", vec![(-0.75, 0.25).to_object(py)], vec![("axis", u(a))], catches(|| {
                m.circulation_time_two_boundary(s, a, (-0.75, 0.25)).iter().flat_map(|x| [x.0, x.1]).collect()
            }))
        }
        11 => {
            let (a, b) = if given { (2, 1) } else { (1, 2) };
            ("concentration_field", gr(), vec![("type_a", u(a)), ("type_b", u(b))],
             catches(|| flat(m.concentration_field(g, s, a, b).as_ref())))
        }
        12 => {
            let v = if given { 1.5 } else { 0.0 };
            ("homogenity_index", gr(), vec![("min_vel", f(v))], catches(|| vec![m.homogenity_index(g, s, v)]))
        }
        13 => ("msd_field", vec![pg.to_object(py), f(1.5)], vec![], catches(|| flat(m.msd_field(g, s, 1.5).as_ref()))),
        14 => {
            let (a, b, n) = if given { (0.75, 1.5, 2) } else { (0.0, 0.0, 100) };
            ("msd", gr(), vec![("min_time", f(a)), ("max_time", f(b)), ("steps", u(n))], catches(|| {
                let (x, y) = m.msd(g, s, a, b, n);
                [arr(&x), arr(&y)].concat()
            }))
        }
        _ => ("extract", vec![u(1), (1usize, 4usize).to_object(py)], vec![], catches(|| {
            let a = m.extract(1, (1, 4));
            let mut o = vec![a.nrows() as f64, a.ncols() as f64];
            o.extend(a.iter());
            o
        })),
    }
}
fn data(options: bool) {
    let particles = flag("particles");
    let m = cloud(4, 2, !particles && flag("vary"), if particles { 0 } else { 1 });
    store(&m, particles);
    let mut d: Box<dyn Manager> = if particles { Box::new(PData::new(FILE)) } else { Box::new(TData::new(FILE)) };
    let cyl = flag("cyl");
    let k = choose("method", METHODS);
    let mut s = ParticleSelector::default();
    with_up4(|py, up4| {
        let c = up4.getattr("Data").unwrap();
        // the reader follows from the file, or is chosen
        let o = match choose("open", 2) {
            0 => c.call1((FILE,)),
            _ => c.call_method1(if particles { "from_pdata" } else { "from_tdata" }, (FILE,)),
        }
        .unwrap();
        if flag("window") {
            s.set_time(1.0, 2.5);
            o.call_method1("set_time", (1.0, 2.5)).unwrap();
        }
        let pg = pygrid(up4, cyl);
        let (name, mut args, opt, want) = method(py, d.as_mut(), k, grid_of(cyl), pg, &s, options);
        let mut kw = vec![];
        if options {
            if opt.is_empty() {
                cover("none");
                return;
            }
            match choose("pass", 2) {
                0 => kw = opt,
                _ => args.extend(opt.into_iter().map(|x| x.1)),
            }
        }
        let got = attempt(|| o.call_method(name, tuple(py, args), Some(kwargs(py, &kw))));
        match (got, want) {
            (Ok(g), Ok(w)) => {
                cover("compared");
                same(&numbers(g), &w, &format!("result of {name} in Python"));
            }
            (Err(_), Err(())) => cover("refused"),
            (Ok(_), Err(())) => check(false, &format!("{name} succeeds in Python only")),
            (Err(e), Ok(_)) => check(false, &format!("{name} fails in Python only: {e}")),
        }
        // the grid passed to a method stays as it is
        same(&numbers(pg), &flat(grid_of(cyl).as_ref()), "the grid that was passed");
    });
}
fn c38_defaults() {
    data(false);
}
fn c38_options() {
    data(true);
}

/// any window, set once or twice, on data that start before, at or after time zero
fn c38_window() {
    let particles = flag("particles");
    let mut m = cloud(4, 2, false, if particles { 0 } else { 1 });
    let shift = [0.0, -0.5, -2.0, -64.0][choose("shift", 4)];
    let mut st = m.steps.clone();
    for x in st.iter_mut() {
        x.time += shift;
    }
    m = crate::world::Mem::new(st);
    m.sample_rate = 0.75;
    store(&m, particles);
    let mut d: Box<dyn Manager> = if particles { Box::new(PData::new(FILE)) } else { Box::new(TData::new(FILE)) };
    let k = [2, 4, 8, 9, 13][choose("method", 5)];
    let (a, b) = (shift + real("from", -2, 4), shift + real("to", -2, 6));
    let last = m.steps[3].time;
    let mut s = ParticleSelector::default();
    with_up4(|py, up4| {
        let o = open(up4);
        if flag("before") {
            o.call_method1("set_time", (shift + 1.0, shift + 2.0)).unwrap();
            s.set_time(shift + 1.0, shift + 2.0);
        }
        // windows behind the data are refused (and change nothing)
        let r = attempt(|| o.call_method1("set_time", (a, b)));
        check(r.is_ok() == (a <= last), "windows are accepted unless they start behind the data");
        if r.is_ok() {
            s.set_time(a, b);
            cover("window");
        } else {
            cover("refused window");
        }
        let pg = pygrid(up4, false);
        let (name, args, _, want) = method(py, d.as_mut(), k, grid_of(false), pg, &s, false);
        match (attempt(|| o.call_method(name, tuple(py, args), None)), want) {
            (Ok(g), Ok(w)) => {
                cover("compared");
                same(&numbers(g), &w, &format!("result of {name} in a window"));
            }
            (Err(_), Err(())) => cover("refused"),
            _ => check(false, &format!("{name} succeeds in one language only")),
        }
    });
}

// ---------------------------------------------------------------- C39: snapshots by index
/// a stored dataset of n snapshots, with every position and velocity of one particle symbolic
fn opened(n: usize, np: usize) -> (crate::world::Mem, bool) {
    let particles = flag("particles");
    let mut m = cloud(n, np, !particles && flag("vary"), if particles { 0 } else { 1 });
    let at = if n > 1 { choose("row", 2) * (n - 2) + 1 } else { 0 };
    let q = m.steps[at].p.last_mut().unwrap();
    q.pos = [0, 1, 2].map(|k| real(&format!("p{k}"), -8, 8));
    q.vel = [0, 1, 2].map(|k| real(&format!("v{k}"), -8, 8));
    store(&m, particles);
    (m, particles)
}
/// rows of a snapshot: identifier, position, velocity
fn rows(m: &crate::world::Mem, i: usize) -> Vec<[f64; 7]> {
    m.steps[i].p.iter().map(|q| [q.id, q.pos[0], q.pos[1], q.pos[2], q.vel[0], q.vel[1], q.vel[2]]).collect()
}
fn open<'py>(up4: &'py PyModule) -> &'py PyAny {
    up4.getattr("Data").unwrap().call1((FILE,)).unwrap()
}
fn same_snapshot(a: &ndarray::ArrayD<f64>, m: &crate::world::Mem, i: usize) {
    let w = rows(m, i);
    check(a.shape() == [w.len(), 7], "shape of a snapshot");
    if a.shape() == [w.len(), 7] {
        for (j, r) in w.iter().enumerate() {
            for k in 0..7 {
                eq(a[[j, k]], r[k], "row of a snapshot");
            }
        }
    }
}
/// several snapshots: one layer each, with a row for each particle
fn same_snapshots(a: &ndarray::ArrayD<f64>, m: &crate::world::Mem, which: &[usize]) {
    let np = m.nparticles;
    check(a.shape() == [which.len(), np, 7], &format!("shape of several snapshots {:?} {:?}", a.shape(), which));
    if a.shape() != [which.len(), np, 7] {
        return;
    }
    for (l, i) in which.iter().enumerate() {
        for (j, r) in rows(m, *i).iter().enumerate() {
            for k in 0..7 {
                eq(a[[l, j, k]], r[k], "row of one of several snapshots");
            }
        }
    }
}
const SNAPS: usize = 5;
fn c39_single() {
    let (m, _) = opened(SNAPS, 2);
    with_up4(|_, up4| {
        let d = open(up4);
        for r in 0..2 {
            let i = choose(&format!("index{r}"), 2 * SNAPS + 4) as i64 - SNAPS as i64 - 2;
            let n = SNAPS as i64;
            match attempt(|| d.get_item(i)) {
                Ok(a) => {
                    check((-n..n).contains(&i), "an index outside the dataset is an error");
                    if (-n..n).contains(&i) {
                        cover("row");
                        same_snapshot(&array(a), &m, i.rem_euclid(n) as usize);
                    }
                }
                Err(e) => {
                    cover("outside");
                    check(!(-n..n).contains(&i), &format!("index {i} of {n}: {e}"));
                }
            }
        }
    });
}
/// -6..6 or none
fn bound(name: &str) -> Option<i64> {
    let i = choose(name, 14);
    if i == 13 { None } else { Some(i as i64 - 6) }
}
fn c39_slice() {
    let (m, _) = opened(SNAPS, 2);
    let (a, b, c) = (bound("start"), bound("stop"), [None, Some(1), Some(2), Some(3), Some(-1), Some(-2), Some(7)][choose("step", 7)]);
    with_up4(|py, up4| {
        let d = open(up4);
        let s = py.import("builtins").unwrap().getattr("slice").unwrap().call1((a, b, c)).unwrap();
        // what Python takes from a sequence of as many elements
        let which: Vec<usize> = (0..SNAPS).collect::<Vec<_>>().to_object(py).as_ref(py).get_item(s).unwrap().extract().unwrap();
        match attempt(|| d.get_item(s)) {
            Ok(x) => {
                cover("slice");
                same_snapshots(&array(x), &m, &which)
            }
            Err(e) => check(false, &format!("slice {a:?}:{b:?}:{c:?} failed: {e}")),
        }
    });
}
fn c39_list() {
    let (m, _) = opened(SNAPS, 2);
    let n = SNAPS as i64;
    let l: Vec<i64> = (0..choose("length", 3 + thorough() as usize)).map(|i| choose(&format!("i{i}"), 2 * SNAPS + 2) as i64 - n - 1).collect();
    let array_of = flag("array");
    with_up4(|py, up4| {
        let d = open(up4);
        let i = if array_of {
            py.import("numpy").unwrap().call_method1("array", (l.clone(), "int64")).unwrap().to_object(py)
        } else {
            l.to_object(py)
        };
        let valid = l.iter().all(|i| (-n..n).contains(i));
        match attempt(|| d.get_item(i)) {
            Ok(x) => {
                check(valid, "an index outside the dataset is an error");
                if valid {
                    cover("list");
                    same_snapshots(&array(x), &m, &l.iter().map(|i| i.rem_euclid(n) as usize).collect::<Vec<_>>())
                }
            }
            Err(e) => {
                cover("outside");
                check(!valid, &format!("list {l:?} failed: {e}"))
            }
        }
    });
}
/// iterating over a dataset yields every snapshot in order and ends
fn c39_iterate() {
    let n = 1 + choose("n", 4);
    let (m, _) = opened(n, 2);
    with_up4(|_, up4| {
        let d = open(up4);
        let it = match attempt(|| d.iter().map(|i| i.as_ref())) {
            Ok(i) => i.iter().unwrap(),
            Err(e) => return check(false, &format!("iteration failed: {e}")),
        };
        let mut k = 0;
        let mut it = it;
        loop {
            match catches(|| it.next()) {
                Ok(Some(Ok(x))) => {
                    check(k < n, "iteration ends after the last snapshot");
                    if k >= n {
                        return;
                    }
                    same_snapshot(&array(x), &m, k);
                    k += 1;
                }
                Ok(None) => break,
                Ok(Some(Err(e))) => return check(false, &format!("iteration failed: {e}")),
                Err(()) => return check(false, "iteration panicked"),
            }
        }
        cover("iterated");
        check(k == n, "iteration yields every snapshot");
    });
}
fn c39_about() {
    let n = 1 + choose("n", 4);
    let particles = flag("particles");
    let mut m = cloud(n, 1 + choose("np", 3), false, if particles { 0 } else { 1 });
    m.lo = [0, 1, 2].map(|k| real(&format!("lo{k}"), -64, 0));
    m.hi = [0, 1, 2].map(|k| real(&format!("hi{k}"), 0, 64));
    store(&m, particles);
    let g = m.global_stats();
    with_up4(|_, up4| {
        let d = open(up4);
        check(d.len().unwrap() == n, "length");
        check(d.call_method0("nparticles").unwrap().extract::<usize>().unwrap() == m.nparticles, "number of particles");
        let t = array(d.call_method0("time").unwrap());
        check(t.shape() == [n], "number of times");
        for i in 0..n {
            eq(t[[i]], m.steps[i].time, "times");
        }
        let lo = array(d.call_method0("min_position").unwrap());
        let hi = array(d.call_method0("max_position").unwrap());
        let e = d.call_method0("dimensions").unwrap();
        check(e.len().unwrap() == 6, "keys of the dimensions");
        for (k, a) in ["x", "y", "z"].iter().enumerate() {
            eq(lo[[k]], g.dimensions()[[0, k]], "smallest position");
            eq(hi[[k]], g.dimensions()[[1, k]], "largest position");
            let v = |s: &str| e.get_item(format!("{a}{s}")).unwrap().extract::<f64>().unwrap();
            eq(v("min"), g.dimensions()[[0, k]], "lower dimension");
            eq(v("max"), g.dimensions()[[1, k]], "upper dimension");
        }
        cover("about");
    });
}
#[allow(unused)]
type _A = PyArrayDyn<f64>;
