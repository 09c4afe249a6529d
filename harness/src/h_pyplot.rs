//! C42: plots called from Python draw what the Rust plotters draw for the same arguments.
use crate::h_plot::{blank, contents, norm, part, put, some_cells, vectors, NS};
use crate::py::*;
use crate::sym::*;
use crate::Entry;
use ndarray::{Array2, Array3};
use plotly::contour::Contours;
use plotly::{HeatMap, Record, Trace};
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyModule};
use upppp_rust::libgrid::{PyGrid, PyVecGrid};
use upppp_rust::parity_contour::ParityContour;
use upppp_rust::parity_map::ParityMap;
use upppp_rust::parity_plot::ParityPlot;
use upppp_rust::quiver::QuiverPlot;
use upppp_rust::scalar_contour::ScalarContour;
use upppp_rust::scalar_map::ScalarMap;
use upppp_rust::unit_vector::UnitVectorPlot;
use upppp_rust::*;

pub const ALL: &[Entry] = &[
    ("c42_quiver", c42_quiver),
    ("c42_unit", c42_unit),
    ("c42_scalar", c42_scalar),
    ("c42_magnitude", c42_magnitude),
    ("c42_parity", c42_parity),
    ("c42_parity_vector", c42_parity_vector),
    ("c42_colours", c42_colours),
    ("c42_refused", c42_refused),
    ("c42_again", c42_again),
    ("c42_sheet", c42_sheet),
];

type Grid = Box<dyn GridFunctions3D>;

fn py_grid<'py>(py: Python<'py>, g: &Grid) -> &'py PyAny {
    Py::new(py, PyGrid { grid: g.clone() }).unwrap().into_ref(py)
}
fn py_vectors<'py>(py: Python<'py>, g: &VectorGrid) -> &'py PyAny {
    Py::new(py, PyVecGrid { grid: g.clone() }).unwrap().into_ref(py)
}
fn plotter<'py>(up4: &'py PyModule, g: &PyAny) -> &'py PyAny {
    up4.getattr("Plotter2D").unwrap().call1((g,)).expect("a plotter")
}
fn recorded<T: Trace + ?Sized>(t: &[Box<T>]) -> Vec<Record> {
    t.iter().map(|x| x.record()).collect()
}
fn same_record(a: &Record, b: &Record, what: &str) {
    check(a.text == b.text, &format!("{what}: {} instead of {}", a.text, b.text));
    check(a.numbers.len() == b.numbers.len(), &format!("numbers of {what}"));
    for ((k, x), (l, y)) in a.numbers.iter().zip(&b.numbers) {
        check(k == l, &format!("numbers of {what}"));
        same(x, y, &format!("{k} of {what}"));
    }
}
/// the figure holds these traces
fn drawn(fig: Result<&PyAny, String>, want: &[Record], what: &str) {
    let f = match fig {
        Ok(f) => f,
        Err(e) => return check(false, &format!("{what} failed: {e}")),
    };
    let json: String = f.getattr("json").unwrap().extract().unwrap();
    let s = match plotly::sheet(&json) {
        Some(s) => s,
        None => return check(false, &format!("{what} is not the plot made in Rust")),
    };
    check(s.traces.len() == want.len(), &format!("{} instead of {} traces in {what}", s.traces.len(), want.len()));
    for (a, b) in s.traces.iter().zip(want) {
        same_record(a, b, what);
    }
}
/// the figure was updated with the style and the layout, once and in this order
fn dressed(fig: &PyAny, style: &PyAny, layout: &PyAny) {
    let l: Vec<(&PyAny, &PyAny)> = fig.getattr("updates").unwrap().extract().unwrap();
    check(l.len() == 1, "style and layout are applied once");
    if let Some((a, b)) = l.first() {
        check(a.is(style), "the given style");
        check(b.is(layout), "the given layout");
    }
}
/// axis and plane of a plot, with the arguments that ask for it
fn place(py: Python, n: [usize; 3], by_name: bool) -> (usize, Option<usize>, Vec<PyObject>, Vec<(&'static str, PyObject)>) {
    let axis = choose("axis", 3);
    let (index, text) = match choose("selection", 4) {
        0 => (None, None),
        1 => (None, Some("depth_average")),
        2 => (Some(0), Some("plane")),
        _ => (Some(n[axis] - 1), Some("plane")),
    };
    let (mut pos, mut kw) = (vec![], vec![]);
    if by_name {
        kw.push(("axis", axis.into_py(py)));
    } else {
        pos.push(axis.into_py(py));
    }
    if let Some(t) = text {
        if by_name {
            kw.push(("selection", t.into_py(py)));
        } else {
            pos.push(t.into_py(py));
        }
    }
    if let Some(i) = index {
        if by_name {
            kw.push(("index", i.into_py(py)));
        } else {
            pos.push(i.into_py(py));
        }
    }
    (axis, index, pos, kw)
}
fn looks(py: Python) -> (&PyAny, &PyAny) {
    (PyDict::new(py), PyDict::new(py))
}
/// calls a method with a style and a layout
fn ask<'py>(py: Python<'py>, p: &'py PyAny, name: &str, pos: Vec<PyObject>, mut kw: Vec<(&'static str, PyObject)>) -> Result<&'py PyAny, String> {
    let (style, layout) = looks(py);
    kw.push(("style", style.into_py(py)));
    kw.push(("layout", layout.into_py(py)));
    let r = attempt(|| p.call_method(name, tuple(py, pos), Some(kwargs(py, &kw))));
    if let Ok(f) = r {
        dressed(f, style, layout);
    }
    r
}
struct Arrows {
    mode: Option<&'static str>,
    lo: f64,
    hi: f64,
    colour: Option<&'static str>,
}
const MODES: [Option<&str>; 6] = [None, Some("min"), Some("max"), Some("minmax"), Some("half_node"), Some("full_node")];
/// how arrows are scaled and coloured; sizes that are not needed are sometimes given
fn arrows(py: Python, pos: &mut Vec<PyObject>, kw: &mut Vec<(&'static str, PyObject)>, by_name: bool, mode: Option<&'static str>, colour: Option<&'static str>) -> Arrows {
    let lo = real("lo", 0, 2);
    let hi = real("hi", 3, 6);
    let need = match mode {
        Some("min") => (true, false),
        Some("max") => (false, true),
        Some("minmax") => (true, true),
        _ => (false, false),
    };
    if by_name || pos.len() < 3 {
        if let Some(m) = mode {
            kw.push(("scaling_mode", m.into_py(py)));
        }
        let more = flag("more");
        if need.0 || more {
            kw.push(("min_size", lo.into_py(py)));
        }
        if need.1 || more {
            kw.push(("max_size", hi.into_py(py)));
        }
        if let Some(c) = colour {
            kw.push(("colour_map", c.into_py(py)));
        }
    } else {
        pos.push(mode.into_py(py));
        pos.push(lo.into_py(py));
        pos.push(hi.into_py(py));
        pos.push(colour.into_py(py));
    }
    Arrows { mode, lo, hi, colour }
}
fn gradient(name: Option<&str>) -> Option<colorous::Gradient> {
    name.map(|n| COLOURS.iter().find(|c| c.0 == n).unwrap().1)
}
/// cells, kind and order in memory of a grid
fn shape() -> ([usize; 3], bool, bool) {
    [(NS[0], false, false), (NS[1], true, false), (NS[2], false, true)][choose("shape", 3)]
}
/// a vector grid with a symbolic cell, unless fixed
fn a_field(fixed: bool) -> (VectorGrid, [usize; 3], Vec<Array3<f64>>, Vec<Array3<f64>>) {
    let (n, cyl, f) = shape();
    let at = [[n[0] - 1, n[1] - 1, n[2] - 1]];
    let (g, d, w) = vectors(n, cyl, if fixed { &[] } else { &at }, "d", f);
    (g, n, d, w)
}
/// directions need vectors that are not zero
fn not_zero(u: &Array2<f64>, v: &Array2<f64>) {
    for (a, b) in u.iter().zip(v) {
        assume_lt(0.0, a * a + b * b);
    }
}
fn c42_quiver() {
    // colours follow the magnitudes, which are fixed numbers for them; so are those of scaled arrows
    let colour = [None, Some("viridis"), Some("red_grey")][choose("colour", 3)];
    let mode = MODES[choose("mode", 6)];
    let (g, n, d, w) = a_field(colour.is_some() || mode.is_some());
    with_up4(|py, up4| {
        let by_name = flag("by name");
        let (axis, index, mut pos, mut kw) = place(py, n, by_name);
        let (u, v) = part(&d, &w, axis, index);
        not_zero(&u, &v);
        let a = arrows(py, &mut pos, &mut kw, by_name, mode, colour);
        let q = match index {
            Some(i) => QuiverPlot::from_vector_grid_single_plane(g.clone(), axis, i),
            None => QuiverPlot::from_vector_grid_depth_averaged(g.clone(), axis),
        };
        let (dx, dy) = (q.x()[1] - q.x()[0], q.y()[1] - q.y()[0]);
        let q = match a.mode {
            Some("min") => q.bound_min(a.lo),
            Some("max") => q.bound_max(a.hi),
            Some("minmax") => q.bound_min_max(a.lo, a.hi),
            Some("half_node") => q.bound_half_node(dx, dy),
            Some("full_node") => q.bound_full_node(dx, dy),
            _ => q,
        };
        let want = recorded(&q.create_quiver_traces(1.0, gradient(a.colour)));
        let p = plotter(up4, py_vectors(py, &g));
        drawn(ask(py, p, "quiver_plot", pos, kw), &want, "quiver plot");
        cover("drawn");
    });
}
fn c42_unit() {
    // colours follow the magnitudes, which are fixed numbers for them; so are those of scaled arrows
    let colour = [None, Some("viridis"), Some("red_grey")][choose("colour", 3)];
    let mode = MODES[choose("mode", 6)];
    let (g, n, d, w) = a_field(colour.is_some() || mode.is_some());
    with_up4(|py, up4| {
        let by_name = flag("by name");
        let (axis, index, mut pos, mut kw) = place(py, n, by_name);
        let (u, v) = part(&d, &w, axis, index);
        not_zero(&u, &v);
        let a = arrows(py, &mut pos, &mut kw, by_name, mode, colour);
        let q = match index {
            Some(i) => UnitVectorPlot::from_vector_grid_single_plane(g.clone(), axis, i),
            None => UnitVectorPlot::from_vector_grid_depth_averaged(g.clone(), axis),
        };
        let (dx, dy) = (q.x()[1] - q.x()[0], q.y()[1] - q.y()[0]);
        let q = match a.mode {
            Some("min") => q.bound_min(a.lo),
            Some("max") => q.bound_max(a.hi),
            Some("minmax") => q.bound_min_max(a.lo, a.hi),
            Some("half_node") => q.bound_half_node(dx, dy),
            Some("full_node") => q.bound_full_node(dx, dy),
            _ => q,
        };
        let want = recorded(&q.create_quiver_traces(1.0, gradient(a.colour)));
        let p = plotter(up4, py_vectors(py, &g));
        drawn(ask(py, p, "unit_vector_plot", pos, kw), &want, "unit vector plot");
        cover("drawn");
    });
}
fn colour(py: Python, pos: &mut Vec<PyObject>, kw: &mut Vec<(&'static str, PyObject)>) -> Option<&'static str> {
    let c = [None, Some("viridis"), Some("greys")][choose("colour", 3)];
    if pos.len() == 3 {
        pos.push(c.into_py(py));
    } else if c.is_some() || flag("nothing") {
        kw.push(("colour_map", c.into_py(py)));
    }
    c
}
/// contour lines at tenths of the range of the values
fn lines(c: ScalarContour, values: &Array2<f64>, g: Option<colorous::Gradient>) -> Vec<Record> {
    let mut t = c.create_scalar_contour(g);
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for v in values {
        if *v < lo {
            lo = *v;
        }
        if *v > hi {
            hi = *v;
        }
    }
    let t = t.remove(0).contours(Contours::new().start(lo).end(hi).size((hi - lo) / 10.0)).auto_contour(false);
    vec![t.record()]
}
fn averaged(d: &Array3<f64>, w: &Array3<f64>, axis: usize) -> Array2<f64> {
    let a = ndarray::Axis(axis);
    (d * w).sum_axis(a) / w.sum_axis(a)
}
fn a_grid(tag: &str, k: usize, n: [usize; 3], cyl: bool, f: bool) -> (Grid, Array3<f64>, Array3<f64>) {
    let at = some_cells(n);
    let mut g = blank(n, cyl);
    let (d, w) = contents(tag, n, &at[..1], k);
    put(g.as_mut(), &d, &w, f);
    (g, d, w)
}
fn c42_scalar() {
    let (n, cyl, f) = shape();
    let (g, d, w) = a_grid("d", 0, n, cyl, f);
    with_up4(|py, up4| {
        let (axis, index, mut pos, mut kw) = place(py, n, flag("by name"));
        let c = gradient(colour(py, &mut pos, &mut kw));
        let p = plotter(up4, py_grid(py, &g));
        let values = match index {
            Some(i) => d.index_axis(ndarray::Axis(axis), i).to_owned(),
            None => averaged(&d, &w, axis),
        };
        if flag("contour") {
            let t = match index {
                Some(i) => ScalarContour::from_grid_single_plane(g.clone(), axis, i),
                None => ScalarContour::from_grid_depth_averaged(g.clone(), axis),
            };
            drawn(ask(py, p, "scalar_contour", pos, kw), &lines(t, &values, c), "contour");
            cover("contour");
        } else {
            let t = match index {
                Some(i) => ScalarMap::from_grid_single_plane(g.clone(), axis, i),
                None => ScalarMap::from_grid_depth_averaged(g.clone(), axis),
            };
            drawn(ask(py, p, "scalar_map", pos, kw), &recorded(&t.create_scalar_map(c)), "map");
            cover("map");
        }
    });
}
/// maps and contours of vector grids show the magnitude
fn c42_magnitude() {
    let (g, n, d, w) = a_field(false);
    with_up4(|py, up4| {
        let (axis, index, mut pos, mut kw) = place(py, n, flag("by name"));
        let c = gradient(colour(py, &mut pos, &mut kw));
        let p = plotter(up4, py_vectors(py, &g));
        if flag("contour") {
            let t = match index {
                Some(i) => ScalarContour::from_vector_grid_single_plane(g.clone(), axis, i),
                None => ScalarContour::from_vector_grid_depth_averaged(g.clone(), axis),
            };
            let (u, v) = part(&d, &w, axis, index);
            drawn(ask(py, p, "scalar_contour", pos, kw), &lines(t, &norm(&u, &v), c), "contour of vectors");
            cover("contour");
        } else {
            let t = match index {
                Some(i) => ScalarMap::from_vector_grid_single_plane(g.clone(), axis, i),
                None => ScalarMap::from_vector_grid_depth_averaged(g.clone(), axis),
            };
            drawn(ask(py, p, "scalar_map", pos, kw), &recorded(&t.create_scalar_map(c)), "map of vectors");
            cover("map");
        }
    });
}
const PARITY: [&str; 3] = ["parity_plot", "parity_map", "parity_contour"];
fn with_other(py: Python, other: &PyAny, pos: &mut Vec<PyObject>, kw: &mut Vec<(&'static str, PyObject)>) {
    if pos.is_empty() {
        kw.push(("comparison_grid", other.into_py(py)));
    } else {
        pos.insert(0, other.into_py(py));
    }
}
fn c42_parity() {
    let (n, cyl, f) = shape();
    let (a, _, _) = a_grid("a", 0, n, cyl, f);
    let (b, _, _) = a_grid("b", 1, n, cyl, f);
    with_up4(|py, up4| {
        let (axis, index, mut pos, mut kw) = place(py, n, flag("by name"));
        with_other(py, py_grid(py, &b), &mut pos, &mut kw);
        let p = plotter(up4, py_grid(py, &a));
        let k = choose("kind", 3);
        let want = match (k, index) {
            (0, None) => recorded(&ParityPlot::from_grids_depth_averaged(a, b, axis).create_parity_scatter()),
            (0, Some(i)) => recorded(&ParityPlot::from_grids_single_plane(a, b, axis, i).create_parity_scatter()),
            (1, None) => recorded(&ParityMap::from_grids_depth_averaged(a, b, axis).create_parity_map()),
            (1, Some(i)) => recorded(&ParityMap::from_grids_single_plane(a, b, axis, i).create_parity_map()),
            (_, None) => recorded(&ParityContour::from_grids_depth_averaged(a, b, axis).create_parity_contour()),
            (_, Some(i)) => recorded(&ParityContour::from_grids_single_plane(a, b, axis, i).create_parity_contour()),
        };
        drawn(ask(py, p, PARITY[k], pos, kw), &want, PARITY[k]);
        cover("drawn");
    });
}
fn c42_parity_vector() {
    let (n, cyl, f) = shape();
    let (a, _, _) = vectors(n, cyl, &[[n[0] - 1, n[1] - 1, n[2] - 1]], "a", f);
    let (mut b, d, w) = vectors(n, cyl, &[], "b", f);
    for k in 0..3 {
        put(b.data[k].as_mut(), &d[k].mapv(|x| 1.5 - x), &w[k].mapv(|x| 4.0 - x), f);
    }
    with_up4(|py, up4| {
        let (axis, index, mut pos, mut kw) = place(py, n, flag("by name"));
        with_other(py, py_vectors(py, &b), &mut pos, &mut kw);
        let p = plotter(up4, py_vectors(py, &a));
        let k = choose("kind", 3);
        let want = match (k, index) {
            (0, None) => recorded(&ParityPlot::from_vector_grids_depth_averaged(a, b, axis).create_parity_scatter()),
            (0, Some(i)) => recorded(&ParityPlot::from_vector_grids_single_plane(a, b, axis, i).create_parity_scatter()),
            (1, None) => recorded(&ParityMap::from_vector_grids_depth_averaged(a, b, axis).create_parity_map()),
            (1, Some(i)) => recorded(&ParityMap::from_vector_grids_single_plane(a, b, axis, i).create_parity_map()),
            (_, None) => recorded(&ParityContour::from_vector_grids_depth_averaged(a, b, axis).create_parity_contour()),
            (_, Some(i)) => recorded(&ParityContour::from_vector_grids_single_plane(a, b, axis, i).create_parity_contour()),
        };
        drawn(ask(py, p, PARITY[k], pos, kw), &want, PARITY[k]);
        cover("drawn");
    });
}
/// the colour maps of the documentation
const COLOURS: [(&str, colorous::Gradient); 36] = [
    ("turbo", colorous::TURBO),
    ("viridis", colorous::VIRIDIS),
    ("inferno", colorous::INFERNO),
    ("magma", colorous::MAGMA),
    ("plasma", colorous::PLASMA),
    ("cividis", colorous::CIVIDIS),
    ("warm", colorous::WARM),
    ("cool", colorous::COOL),
    ("cubehelix", colorous::CUBEHELIX),
    ("blue_green", colorous::BLUE_GREEN),
    ("blue_purple", colorous::BLUE_PURPLE),
    ("green_blue", colorous::GREEN_BLUE),
    ("orange_red", colorous::ORANGE_RED),
    ("purple_blue_green", colorous::PURPLE_BLUE_GREEN),
    ("purple_blue", colorous::PURPLE_BLUE),
    ("purple_red", colorous::PURPLE_RED),
    ("red_purple", colorous::RED_PURPLE),
    ("yellow_green_blue", colorous::YELLOW_GREEN_BLUE),
    ("yellow_green", colorous::YELLOW_GREEN),
    ("yellow_orange_brown", colorous::YELLOW_ORANGE_BROWN),
    ("yellow_orange_red", colorous::YELLOW_ORANGE_RED),
    ("blues", colorous::BLUES),
    ("greens", colorous::GREENS),
    ("greys", colorous::GREYS),
    ("oranges", colorous::ORANGES),
    ("purples", colorous::PURPLES),
    ("reds", colorous::REDS),
    ("brown_green", colorous::BROWN_GREEN),
    ("purple_green", colorous::PURPLE_GREEN),
    ("pink_green", colorous::PINK_GREEN),
    ("purple_orange", colorous::PURPLE_ORANGE),
    ("red_blue", colorous::RED_BLUE),
    ("red_grey", colorous::RED_GREY),
    ("red_yellow_blue", colorous::RED_YELLOW_BLUE),
    ("red_yellow_green", colorous::RED_YELLOW_GREEN),
    ("spectral", colorous::SPECTRAL),
];
/// every name, in any case, gives its colours in every plot
fn c42_colours() {
    let n = NS[choose("shape", 3)];
    let vector = flag("vector");
    let (name, c) = COLOURS[choose("colour", COLOURS.len())];
    let text = match choose("case", 3) {
        0 => name.to_string(),
        1 => name.to_uppercase(),
        _ => name[..1].to_uppercase() + &name[1..],
    };
    let (g, _, _) = vectors(n, false, &[[0, 0, 1]], "d", false);
    with_up4(|py, up4| {
        let pos = vec![2.into_py(py)];
        let kw = vec![("selection", "plane".into_py(py)), ("index", 0.into_py(py)), ("colour_map", text.into_py(py))];
        if vector {
            let p = plotter(up4, py_vectors(py, &g));
            let which = flag("unit");
            let want = if which {
                recorded(&UnitVectorPlot::from_vector_grid_single_plane(g, 2, 0).create_quiver_traces(1.0, Some(c)))
            } else {
                recorded(&QuiverPlot::from_vector_grid_single_plane(g, 2, 0).create_quiver_traces(1.0, Some(c)))
            };
            drawn(ask(py, p, if which { "unit_vector_plot" } else { "quiver_plot" }, pos, kw), &want, "coloured arrows");
        } else {
            let g = g.data[0].clone();
            let p = plotter(up4, py_grid(py, &g));
            let want = recorded(&ScalarMap::from_grid_single_plane(g, 2, 0).create_scalar_map(Some(c)));
            drawn(ask(py, p, "scalar_map", pos, kw), &want, "coloured map");
        }
        cover("coloured");
    });
}
/// wrong arguments are refused with a ValueError, whatever the sizes are
fn c42_refused() {
    let n = NS[0];
    let (g, _, _) = vectors(n, false, &[], "d", false);
    let size = real("size", 0, 6);
    with_up4(|py, up4| {
        let s = |t: &str| t.into_py(py);
        let k = choose("wrong", 12);
        let vector = ["quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"];
        let any = k < 5;
        let name = if any {
            vector[choose("method", 7)]
        } else if k < 7 {
            vector[choose("method", 4)]
        } else {
            vector[choose("method", 2)]
        };
        let axis = |a: i64| ("axis", a.into_py(py));
        let mode = |m: &str| ("scaling_mode", m.into_py(py));
        let mut kw = match k {
            0 => vec![axis(3)],
            1 => vec![axis(-1)],
            2 => vec![axis(0), ("selection", s("planes"))],
            3 => vec![axis(1), ("selection", s("plane"))],
            4 => vec![axis(2), ("selection", s("")), ("index", 0.into_py(py))],
            5 => vec![axis(0), ("colour_map", s("rainbow"))],
            6 => vec![axis(0), ("colour_map", s(""))],
            7 => vec![axis(0), mode("mean"), ("min_size", size.into_py(py)), ("max_size", size.into_py(py))],
            8 => vec![axis(1), mode("min"), ("max_size", size.into_py(py))],
            9 => vec![axis(1), mode("max"), ("min_size", size.into_py(py))],
            10 => vec![axis(2), mode("minmax"), ("min_size", size.into_py(py))],
            _ => vec![axis(2), mode("minmax"), ("max_size", size.into_py(py))],
        };
        let scalar = flag("scalar");
        let it = if scalar { py_grid(py, &g.data[0]) } else { py_vectors(py, &g) };
        if name.starts_with("parity") {
            kw.push(("comparison_grid", it.into_py(py)));
        }
        let p = plotter(up4, it);
        match attempt(|| p.call_method(name, (), Some(kwargs(py, &kw)))) {
            Ok(_) => check(false, &format!("wrong argument {k} of {name} is accepted")),
            Err(e) => check(e.starts_with("ValueError"), &format!("wrong argument {k} of {name} ends in {e}")),
        }
        // arrows need vectors
        let it = py_grid(py, &g.data[0]);
        let p = plotter(up4, it);
        for m in &vector[..2] {
            match attempt(|| p.call_method1(*m, (0,))) {
                Ok(_) => check(false, "arrows of a grid without directions"),
                Err(e) => check(e.starts_with("ValueError"), &format!("arrows of a grid without directions end in {e}")),
            }
        }
        // only grids can be plotted
        for x in [s("grid"), py.None(), size.into_py(py)] {
            match attempt(|| up4.getattr("Plotter2D").unwrap().call1((x.as_ref(py),))) {
                Ok(_) => check(false, "plots of something else"),
                Err(e) => check(e.starts_with("ValueError"), &format!("plots of something else end in {e}")),
            }
        }
        cover("refused");
    });
}
/// plots of one plotter do not depend on earlier ones, and earlier figures stay
fn c42_again() {
    let (g, n, _, _) = a_field(false);
    with_up4(|py, up4| {
        let p = plotter(up4, py_vectors(py, &g));
        let (first, then) = (choose("first", 3), choose("then", 3));
        let axis = [choose("axis", 3), choose("other", 3)];
        let draw = |k: usize, axis: usize| {
            let i = n[axis] - 1;
            let name = ["scalar_map", "scalar_contour", "parity_map"][k];
            let mut kw = vec![("axis", axis.into_py(py)), ("selection", "plane".into_py(py)), ("index", i.into_py(py))];
            if k == 2 {
                kw.push(("comparison_grid", py_vectors(py, &g).into_py(py)));
            }
            let want = match k {
                0 => recorded(&ScalarMap::from_vector_grid_single_plane(g.clone(), axis, i).create_scalar_map(None)),
                1 => {
                    let c = ScalarContour::from_vector_grid_single_plane(g.clone(), axis, i);
                    let (q, r) = [(1, 2), (0, 2), (0, 1)][axis];
                    let part = |k: usize| g.data[k].get_data().index_axis(ndarray::Axis(axis), i).to_owned();
                    lines(c, &norm(&part(q), &part(r)), None)
                }
                _ => recorded(&ParityMap::from_vector_grids_single_plane(g.clone(), g.clone(), axis, i).create_parity_map()),
            };
            (ask(py, p, name, vec![], kw), want)
        };
        let (a, x) = draw(first, axis[0]);
        let (b, y) = draw(then, axis[1]);
        drawn(a, &x, "the first plot");
        drawn(b, &y, "the second plot");
        cover("drawn");
    });
}
/// plot() of a grid shows the mean along the axis
fn c42_sheet() {
    let (n, cyl, f) = shape();
    let (g, d, w) = a_grid("d", 0, n, cyl, f);
    let axis = choose("axis", 3);
    let z = averaged(&d, &w, axis);
    let (x, y) = match axis {
        0 => (g.get_zpositions(), g.get_ypositions()),
        1 => (g.get_zpositions(), g.get_xpositions()),
        _ => (g.get_ypositions(), g.get_xpositions()),
    };
    let want = HeatMap::new(x.to_vec(), y.to_vec(), z.outer_iter().map(|r| r.to_vec()).collect());
    with_up4(|py, _| {
        let before = plotly::sheets();
        let r = attempt(|| py_grid(py, &g).call_method1("plot", (axis,)));
        check(r.is_ok(), "plot of a grid");
        check(plotly::sheets() == before + 1, "one plot is shown");
        if let Some(s) = plotly::sheet(&format!("plot {before}")) {
            check(s.traces.len() == 1, "one trace");
            same_record(&s.traces[0], &want.record(), "plot of a grid");
        }
        cover("shown");
    });
}
