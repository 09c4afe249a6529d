//! C34-C36: what the plots draw (the traces recorded by the stand-in for plotly).
use crate::sym::*;
use crate::Entry;
use ndarray::{Array1, Array2, Array3, Axis, ShapeBuilder};
use plotly::common::{ColorScale, Fill, Mode};
use plotly::{Contour, HeatMap, Layout, Scatter, Trace};
use upppp_rust::parity_contour::ParityContour;
use upppp_rust::parity_map::ParityMap;
use upppp_rust::parity_plot::ParityPlot;
use upppp_rust::quiver::QuiverPlot;
use upppp_rust::scalar_contour::ScalarContour;
use upppp_rust::scalar_map::ScalarMap;
use upppp_rust::unit_vector::UnitVectorPlot;
use upppp_rust::*;

pub const ALL: &[Entry] = &[
    ("c34_scalar", c34_scalar),
    ("c34_vector", c34_vector),
    ("c34_many", c34_many),
    ("c34_order", c34_order),
    ("c35_build", c35_build),
    ("c35_scale", c35_scale),
    ("c35_bounds", c35_bounds),
    ("c35_nodes", c35_nodes),
    ("c35_arrows", c35_arrows),
    ("c35_unit", c35_unit),
    ("c35_unit_scale", c35_unit_scale),
    ("c35_unit_arrows", c35_unit_arrows),
    ("c35_colour", c35_colour),
    ("c36_map", c36_map),
    ("c36_map_vector", c36_map_vector),
    ("c36_delta", c36_delta),
    ("c36_plot", c36_plot),
    ("c36_plot_vector", c36_plot_vector),
];

pub const NS: &[[usize; 3]] = &[[2, 3, 4], [4, 2, 3], [3, 4, 2]];
const LIM: [[f64; 2]; 3] = [[-1.0, 3.0], [0.0, 6.0], [-6.0, 6.0]];

pub fn blank(n: [usize; 3], cyl: bool) -> Box<dyn GridFunctions3D> {
    if cyl {
        Box::new(CylindricalGrid3D::new(n, Dim::ThreeD([[-1.0, 3.0], [-4.0, 0.0], [-1.0, 3.0]]), "volume"))
    } else {
        Box::new(CartesianGrid3D::new(n, Dim::ThreeD(LIM)))
    }
}
/// contents of a grid: fixed numbers, the cells `at` symbolic (with a weight of their own)
pub fn contents(tag: &str, n: [usize; 3], at: &[[usize; 3]], k: usize) -> (Array3<f64>, Array3<f64>) {
    let d = Array3::from_shape_fn(n, |(i, j, l)| {
        if at.contains(&[i, j, l]) {
            real(&format!("{tag}{i}{j}{l}"), -8, 8)
        } else {
            ((7 * i + 5 * j + 3 * l + 11 * k) % 13) as f64 * 0.5 - 2.75
        }
    });
    let w = Array3::from_shape_fn(n, |(i, j, l)| ((i + 2 * j + 3 * l + k) % 3 + 1) as f64);
    (d, w)
}
/// the same contents with another order in memory
fn fortran(a: &Array3<f64>) -> Array3<f64> {
    let mut b = Array3::zeros(a.raw_dim().f());
    b.assign(a);
    b
}
pub fn put(g: &mut dyn GridFunctions3D, d: &Array3<f64>, w: &Array3<f64>, f: bool) {
    if f {
        g.set_data(fortran(d));
        g.set_weights(fortran(w));
    } else {
        g.set_data(d.clone());
        g.set_weights(w.clone());
    }
}
/// axes of the plane perpendicular to an axis
fn plane_axes(axis: usize) -> (usize, usize) {
    [(1, 2), (0, 2), (0, 1)][axis]
}
fn coords(g: &dyn GridFunctions3D, cyl: bool, axis: usize) -> (Array1<f64>, Array1<f64>) {
    let (p, q) = plane_axes(axis);
    let n = g.get_cells();
    let f = |a: usize| {
        if cyl {
            [g.get_xpositions(), g.get_ypositions(), g.get_zpositions()][a].clone()
        } else {
            let w = (LIM[a][1] - LIM[a][0]) / n[a] as f64;
            (0..n[a]).map(|i| LIM[a][0] + (i as f64 + 0.5) * w).collect()
        }
    };
    (f(p), f(q))
}
/// mean over an axis weighted by the weights
fn averaged(d: &Array3<f64>, w: &Array3<f64>, axis: usize) -> Array2<f64> {
    let s = (d * w).sum_axis(Axis(axis));
    s / w.sum_axis(Axis(axis))
}
fn cut(d: &Array3<f64>, axis: usize, i: usize) -> Array2<f64> {
    d.index_axis(Axis(axis), i).to_owned()
}
pub fn some_cells(n: [usize; 3]) -> Vec<[usize; 3]> {
    match choose("cells", 3) {
        0 => vec![[0, 0, 0], [n[0] - 1, n[1] - 1, n[2] - 1]],
        1 => vec![[0, n[1] - 1, 0], [n[0] - 1, 0, 0]],
        _ => vec![[0, 0, n[2] - 1]],
    }
}
/// x, y and value of every cell of a plane, in any order
fn same_points(x: &[f64], y: &[f64], z: &[f64], xs: &Array1<f64>, ys: &Array1<f64>, want: &Array2<f64>, msg: &str) {
    let n = want.len();
    check(x.len() == n && y.len() == n && z.len() == n, "one point per cell");
    let mut seen = Array2::from_elem(want.raw_dim(), false);
    for k in 0..n {
        let i = xs.iter().position(|v| (v - x[k]).abs() < 1e-9);
        let j = ys.iter().position(|v| (v - y[k]).abs() < 1e-9);
        match (i, j) {
            (Some(i), Some(j)) => {
                check(!seen[[i, j]], "every cell once");
                seen[[i, j]] = true;
                eq(z[k], want[[i, j]], msg);
            }
            _ => check(false, "a point lies at the coordinates of a cell"),
        }
    }
}
fn scale_ok(c: &Option<ColorScale>) {
    match c {
        Some(ColorScale::Vector(v)) => {
            check(v.len() == 11, "eleven colours");
            for (i, e) in v.iter().enumerate() {
                eq(e.0, i as f64 / 10.0, "steps of the colour scale");
                check(e.1.len() == 7 && e.1.starts_with('#'), "a colour");
            }
        }
        None => check(false, "a colour scale"),
    }
}
fn heat(h: &HeatMap<f64, f64, f64>, xs: &Array1<f64>, ys: &Array1<f64>, want: &Array2<f64>, msg: &str) {
    same_points(&h.x, &h.y, &h.z, xs, ys, want, msg);
}
fn contour(c: &Contour<Vec<f64>>, xs: &Array1<f64>, ys: &Array1<f64>, want: &Array2<f64>, msg: &str) {
    check(c.x.len() == xs.len() && c.y.len() == ys.len(), "coordinates of a contour");
    for i in 0..xs.len().min(c.x.len()) {
        eq(c.x[i], xs[i], "x of a contour");
    }
    for j in 0..ys.len().min(c.y.len()) {
        eq(c.y[j], ys[j], "y of a contour");
    }
    check(c.z.len() == ys.len(), "one row for each y");
    for (j, row) in c.z.iter().enumerate() {
        check(row.len() == xs.len(), "one value for each x");
        for (i, v) in row.iter().enumerate() {
            eq(*v, want[[i, j]], msg);
        }
    }
}

// ---------------------------------------------------------------- maps and contours
fn show_scalar(g: Box<dyn GridFunctions3D>, cyl: bool, d: &Array3<f64>, w: &Array3<f64>) {
    let axis = choose("axis", 3);
    let n = d.shape()[axis];
    let (xs, ys) = coords(g.as_ref(), cyl, axis);
    // averages of undefined values are the subject of C06
    let nan = d.iter().any(|x| x.is_nan());
    let index = if nan || flag("plane") { Some([0, n - 1][choose("index", 2)]) } else { None };
    let want = match index {
        Some(i) => cut(d, axis, i),
        None => averaged(d, w, axis),
    };
    if flag("contour") {
        let c = match index {
            Some(i) => ScalarContour::from_grid_single_plane(g, axis, i),
            None => ScalarContour::from_grid_depth_averaged(g, axis),
        };
        let t = c.create_scalar_contour(None);
        check(t.len() == 1, "one trace");
        contour(&t[0], &xs, &ys, &want, "value of a contour");
        scale_ok(&t[0].color_scale);
    } else {
        let m = match index {
            Some(i) => ScalarMap::from_grid_single_plane(g, axis, i),
            None => ScalarMap::from_grid_depth_averaged(g, axis),
        };
        let t = m.create_scalar_map(None);
        check(t.len() == 1, "one trace");
        heat(&t[0], &xs, &ys, &want, "value of a map");
        scale_ok(&t[0].color_scale);
    }
    cover("done");
}
fn c34_scalar() {
    let n = NS[choose("shape", 3)];
    let cyl = flag("cyl");
    let mut g = blank(n, cyl);
    let at = some_cells(n);
    let (mut d, w) = contents("d", n, &at, 0);
    if flag("nan") {
        d[[0, 1, 0]] = NAN;
        d[[n[0] - 1, n[1] - 1, 0]] = NAN;
    }
    put(g.as_mut(), &d, &w, flag("fortran"));
    show_scalar(g, cyl, &d, &w);
}
fn c34_many() {
    let n = [[17, 5, 11], [3, 29, 7]][choose("shape", 2)];
    let mut g = blank(n, false);
    let (d, w) = contents("d", n, &[[n[0] - 1, n[1] - 2, n[2] - 1]], 0);
    put(g.as_mut(), &d, &w, false);
    show_scalar(g, false, &d, &w);
}
/// a vector grid with the given contents
pub fn vectors(n: [usize; 3], cyl: bool, at: &[[usize; 3]], tag: &str, f: bool) -> (VectorGrid, Vec<Array3<f64>>, Vec<Array3<f64>>) {
    let mut g = VectorGrid::new(blank(n, cyl));
    let (mut ds, mut ws) = (vec![], vec![]);
    for k in 0..3 {
        let (d, w) = contents(&format!("{tag}{k}_"), n, at, k);
        put(g.data[k].as_mut(), &d, &w, f);
        ds.push(d);
        ws.push(w);
    }
    (g, ds, ws)
}
pub fn norm(u: &Array2<f64>, v: &Array2<f64>) -> Array2<f64> {
    Array2::from_shape_fn(u.raw_dim(), |i| (u[i] * u[i] + v[i] * v[i]).sqrt())
}
pub fn part(ds: &[Array3<f64>], ws: &[Array3<f64>], axis: usize, index: Option<usize>) -> (Array2<f64>, Array2<f64>) {
    let (p, q) = plane_axes(axis);
    match index {
        Some(i) => (cut(&ds[p], axis, i), cut(&ds[q], axis, i)),
        None => (averaged(&ds[p], &ws[p], axis), averaged(&ds[q], &ws[q], axis)),
    }
}
fn c34_vector() {
    let n = NS[choose("shape", 3)];
    let cyl = flag("cyl");
    let axis = choose("axis", 3);
    let index = if flag("plane") { Some([0, n[axis] - 1][choose("index", 2)]) } else { None };
    let at = some_cells(n);
    let (g, ds, ws) = vectors(n, cyl, &at[..1], "d", flag("fortran"));
    let (xs, ys) = coords(g.data[0].as_ref(), cyl, axis);
    let (u, v) = part(&ds, &ws, axis, index);
    let want = norm(&u, &v);
    if flag("contour") {
        let c = match index {
            Some(i) => ScalarContour::from_vector_grid_single_plane(g, axis, i),
            None => ScalarContour::from_vector_grid_depth_averaged(g, axis),
        };
        let t = c.create_scalar_contour(None);
        contour(&t[0], &xs, &ys, &want, "magnitude in a contour");
        scale_ok(&t[0].color_scale);
    } else {
        let m = match index {
            Some(i) => ScalarMap::from_vector_grid_single_plane(g, axis, i),
            None => ScalarMap::from_vector_grid_depth_averaged(g, axis),
        };
        let t = m.create_scalar_map(None);
        heat(&t[0], &xs, &ys, &want, "magnitude in a map");
        scale_ok(&t[0].color_scale);
    }
    cover("done");
}
/// plot() keeps the traces, their order and the layout
fn c34_order() {
    let n = choose("n", 4);
    let mut ts: Vec<Box<dyn Trace>> = vec![];
    let mut vs = vec![];
    for i in 0..n {
        let v = real(&format!("v{i}"), -8, 8);
        vs.push(v);
        if flag(&format!("kind{i}")) {
            ts.push(Scatter::new(vec![v], vec![i as f64]));
        } else {
            ts.push(HeatMap::new(vec![i as f64], vec![0.0], vec![v]));
        }
    }
    let p = plot(ts, Layout::new().title("speed"));
    check(p.traces.len() == n, "number of traces");
    check(p.layout.title == "speed", "layout");
    for (i, t) in p.traces.iter().enumerate() {
        if let Some(s) = t.as_any().downcast_ref::<Scatter<f64, f64>>() {
            eq(s.x[0], vs[i], "order of traces");
        } else {
            eq(t.as_any().downcast_ref::<HeatMap<f64, f64, f64>>().unwrap().z[0], vs[i], "order of traces");
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- arrows
fn same2(a: &Array2<f64>, b: &Array2<f64>, msg: &str) {
    check(a.shape() == b.shape(), "shape");
    for (i, x) in b.indexed_iter() {
        eq(a[i], *x, msg);
    }
}
fn same1(a: &Array1<f64>, b: &Array1<f64>, msg: &str) {
    check(a.len() == b.len(), "length");
    for (x, y) in a.iter().zip(b) {
        eq(*x, *y, msg);
    }
}
fn c35_build() {
    let n = NS[choose("shape", 3)];
    let cyl = flag("cyl");
    let axis = choose("axis", 3);
    let index = if flag("plane") { Some([0, n[axis] - 1][choose("index", 2)]) } else { None };
    let at = some_cells(n);
    let (g, ds, ws) = vectors(n, cyl, &at[..1], "d", flag("fortran"));
    let (xs, ys) = coords(g.data[0].as_ref(), cyl, axis);
    let (u, v) = part(&ds, &ws, axis, index);
    let q = match index {
        Some(i) => QuiverPlot::from_vector_grid_single_plane(g, axis, i),
        None => QuiverPlot::from_vector_grid_depth_averaged(g, axis),
    };
    same1(q.x(), &xs, "x of the arrows");
    same1(q.y(), &ys, "y of the arrows");
    same2(q.u(), &u, "first component");
    same2(q.v(), &v, "second component");
    let w = norm(&u, &v);
    same2(q.norm(), &w, "length");
    same2(q.true_norm(), &w, "magnitude");
    cover("done");
}
/// vectors of a 2x3 plane, one symbolic, none of them zero
fn field() -> (Array1<f64>, Array1<f64>, Array2<f64>, Array2<f64>) {
    let at = [[0, 0], [1, 2], [1, 0]][choose("at", 3)];
    let x = Array1::from(vec![-1.0, 0.5]);
    let y = Array1::from(vec![2.0, 4.0, 8.0]);
    let (a, b) = (real("u", -8, 8), real("v", -8, 8));
    assume_lt(0.0, a * a + b * b);
    let u = Array2::from_shape_fn((2, 3), |(i, j)| if [i, j] == at { a } else { [3.0, -4.0, 1.5][j] });
    let v = Array2::from_shape_fn((2, 3), |(i, j)| if [i, j] == at { b } else { [4.0, 3.0, -2.0][j] * (1.0 + i as f64 * 0.0) });
    (x, y, u, v)
}
fn quiver() -> (QuiverPlot, Array2<f64>, Array2<f64>) {
    let (x, y, u, v) = field();
    let w = norm(&u, &v);
    (QuiverPlot::new(x, y, u.clone(), v.clone(), w.clone(), w), u, v)
}
fn consistent(q: &QuiverPlot, before: &Array2<f64>) {
    same2(q.norm(), &norm(q.u(), q.v()), "length of a scaled arrow");
    same2(q.true_norm(), before, "the magnitude of the data is kept");
}
fn c35_scale() {
    let (q, u, v) = quiver();
    let t = q.true_norm().clone();
    if flag("global") {
        let s = real("s", -4, 4);
        let q = q.scale_global(s);
        same2(q.u(), &(&u * s), "scaled");
        same2(q.v(), &(&v * s), "scaled");
        consistent(&q, &t);
    } else {
        let f = Array2::from_shape_fn((2, 3), |(i, j)| if i == 0 { real(&format!("s{j}"), 0, 4) } else { 0.5 + j as f64 });
        let q = q.scale_elementwise(f.clone());
        same2(q.u(), &(&u * &f), "scaled");
        same2(q.v(), &(&v * &f), "scaled");
        consistent(&q, &t);
    }
    cover("done");
}
fn c35_bounds() {
    let (q, u, v) = quiver();
    let t = q.true_norm().clone();
    let (lo, hi) = (real("lo", 1, 4), real("hi", 4, 12));
    let kind = choose("kind", 3);
    let q = match kind {
        0 => q.bound_min(lo),
        1 => q.bound_max(hi),
        _ => q.bound_min_max(lo, hi),
    };
    consistent(&q, &t);
    for (i, n) in t.indexed_iter() {
        let want = if kind != 1 && *n < lo {
            cover("short");
            lo
        } else if kind != 0 && *n > hi {
            cover("long");
            hi
        } else {
            *n
        };
        eq(q.norm()[i], want, "length within the bounds");
        // same direction
        eq(q.u()[i] * v[i], q.v()[i] * u[i], "direction");
        le(0.0, q.u()[i] * u[i] + q.v()[i] * v[i], "not reversed");
    }
}
fn c35_nodes() {
    let (q, u, v) = quiver();
    let t = q.true_norm().clone();
    let (dx, dy) = (real("dx", 0, 4), real("dy", 0, 4));
    let half = flag("half");
    let k = if half { 0.5 } else { 1.0 };
    let q = if half { q.bound_half_node(dx, dy) } else { q.bound_full_node(dx, dy) };
    consistent(&q, &t);
    let mut big = t[[0, 0]];
    for x in &t {
        if *x > big {
            big = *x;
        }
    }
    for (i, _) in t.indexed_iter() {
        eq(q.u()[i] * big, u[i] * dx * k, "first component");
        eq(q.v()[i] * big, v[i] * dy * k, "second component");
    }
    cover("done");
}
/// the arrows of a plot: base at the cell, tip at the base plus the vector, barbs at 20 degrees
fn arrows(ts: &[Box<dyn Trace>], x: &Array1<f64>, y: &Array1<f64>, u: &Array2<f64>, v: &Array2<f64>, length: &Array2<f64>, ratio: f64) {
    let (s, c) = (std::f64::consts::PI / 9.0).sin_cos();
    for (k, ((i, j), l)) in length.indexed_iter().enumerate() {
        let t = match ts[k].as_any().downcast_ref::<Scatter<f64, f64>>() {
            Some(t) => t,
            None => return check(false, "an arrow"),
        };
        check(t.x.len() == 5 && t.y.len() == 5, "five corners");
        check(t.mode == Some(Mode::Lines) && t.fill == Some(Fill::ToSelf) && t.show_legend == Some(false), "drawn as a filled line");
        let (a, b) = (u[[i, j]] * ratio, v[[i, j]]);
        let tip = (x[i] + a, y[j] + b);
        eq(t.x[0], x[i], "base x");
        eq(t.y[0], y[j], "base y");
        for e in [1, 4] {
            eq(t.x[e], tip.0, "tip x");
            eq(t.y[e], tip.1, "tip y");
        }
        let h = (a * a + b * b).sqrt();
        if h == 0.0 {
            cover("no vector");
            continue;
        }
        cover("vector");
        let (p, q) = (0.3 * l * a / h, 0.3 * l * b / h);
        eq(t.x[2], tip.0 - (p * c - q * s), "left barb x");
        eq(t.y[2], tip.1 - (q * c + p * s), "left barb y");
        eq(t.x[3], tip.0 - (p * c + q * s), "right barb x");
        eq(t.y[3], tip.1 - (q * c - p * s), "right barb y");
    }
}
fn c35_arrows() {
    let (x, y, u, v) = field();
    let w = norm(&u, &v);
    let q = QuiverPlot::new(x.clone(), y.clone(), u.clone(), v.clone(), w.clone(), w.clone());
    let r = if flag("ratio") { real("r", 0, 4) } else { 1.0 };
    let ts = q.create_quiver_traces(r, None);
    check(ts.len() == 7, "an arrow per cell and a marker");
    arrows(&ts, &x, &y, &u, &v, &w, r);
    let m = ts[6].as_any().downcast_ref::<Scatter<f64, f64>>().unwrap();
    let k = m.marker.clone().unwrap();
    let (lo, hi) = (k.cmin.unwrap(), k.cmax.unwrap());
    let (mut a, mut b) = (false, false);
    for n in &w {
        le(lo, *n, "colour range starts at the smallest magnitude");
        le(*n, hi, "colour range ends at the largest magnitude");
        a |= *n == lo;
        b |= *n == hi;
    }
    check(a && b, "colour range is tight");
    check(k.show_scale == Some(false), "no colour bar without colours");
    scale_ok(&k.color_scale);
}
/// colours of arrows follow the magnitudes (fixed values)
fn c35_colour() {
    let n = choose("n", 5);
    let s = [1.0, 2.0, 0.25, 7.0, 3.5];
    let m = |k: usize| s[(k + n) % 5];
    let u = Array2::from_shape_fn((1, 5), |(_, j)| 0.6 * m(j));
    let v = Array2::from_shape_fn((1, 5), |(_, j)| 0.8 * m(j));
    let t = Array2::from_shape_fn((1, 5), |(_, j)| m(j));
    let q = QuiverPlot::new(Array1::zeros(1), Array1::from_iter((0..5).map(|i| i as f64)), u, v, t.clone(), t);
    let x = real("scale", 1, 4);
    let q = q.scale_global(x);
    let ts = q.create_quiver_traces(1.0, Some(colorous::VIRIDIS));
    for j in 0..5 {
        let t = ts[j].as_any().downcast_ref::<Scatter<f64, f64>>().unwrap();
        let want = format!("#{:x}", colorous::VIRIDIS.eval_continuous((m(j) - 0.25) / 6.75));
        check(t.fill_color.as_ref() == Some(&want), "colour of an arrow");
        check(t.line.as_ref().unwrap().color.as_ref() == Some(&want), "colour of a line");
    }
    let k = ts[5].as_any().downcast_ref::<Scatter<f64, f64>>().unwrap().marker.clone().unwrap();
    check(k.show_scale == Some(true), "colour bar");
    eq(k.cmin.unwrap(), 0.25, "smallest");
    eq(k.cmax.unwrap(), 7.0, "largest");
    cover("done");
}
/// unit vectors: all of one length, half a cell long, with the magnitude as background
fn unit_grid() -> (VectorGrid, usize, Option<usize>, Array2<f64>, Array2<f64>, Array1<f64>, Array1<f64>) {
    let n = NS[choose("shape", 3)];
    let axis = choose("axis", 3);
    let index = if flag("plane") { Some(n[axis] - 1) } else { None };
    let f = flag("fortran");
    let mut at = [0, n[1] - 1, 1];
    if let Some(i) = index {
        at[axis] = i;
    }
    let (g, ds, ws) = vectors(n, false, &[at], "d", f);
    let (u, v) = part(&ds, &ws, axis, index);
    for (a, b) in u.iter().zip(&v) {
        assume_lt(0.0, a * a + b * b);
    }
    let (xs, ys) = coords(g.data[0].as_ref(), false, axis);
    (g, axis, index, u, v, xs, ys)
}
fn c35_unit() {
    let (g, axis, index, u, v, xs, ys) = unit_grid();
    let p = match index {
        Some(i) => UnitVectorPlot::from_vector_grid_single_plane(g, axis, i),
        None => UnitVectorPlot::from_vector_grid_depth_averaged(g, axis),
    };
    same1(p.x(), &xs, "x of the arrows");
    same1(p.y(), &ys, "y of the arrows");
    let w = norm(&u, &v);
    same2(p.true_norm(), &w, "magnitude");
    let (dx, dy) = (xs[1] - xs[0], ys[1] - ys[0]);
    for (i, l) in w.indexed_iter() {
        eq(p.u()[i] * *l, u[i] * 0.5 * dx, "first component");
        eq(p.v()[i] * *l, v[i] * 0.5 * dy, "second component");
        let (a, b) = (p.u()[i], p.v()[i]);
        eq(p.norm()[i] * p.norm()[i], a * a + b * b, "length");
        le(0.0, p.norm()[i], "length");
    }
    cover("done");
}
/// changes of the lengths of unit vectors (half a cell before)
fn c35_unit_scale() {
    let n = [2, 3, 2];
    let (g, ds, ws) = vectors(n, false, &[[1, 1, 0]], "d", false);
    let axis = choose("axis", 3);
    let (a, b) = part(&ds, &ws, axis, Some([1, 1, 0][axis]));
    for (x, y) in a.iter().zip(&b) {
        assume_lt(0.0, x * x + y * y);
    }
    let p = UnitVectorPlot::from_vector_grid_single_plane(g, axis, [1, 1, 0][axis]);
    let (u, v, w, t) = (p.u().clone(), p.v().clone(), p.norm().clone(), p.true_norm().clone());
    let kind = choose("kind", 7);
    let (lo, hi) = (var("lo", 256, 1024, 10), real("hi", 1, 2));
    let s = real("s", -4, 4);
    let f = Array2::from_shape_fn(u.raw_dim(), |(i, j)| if i == 0 && j == 1 { s } else { 0.5 + j as f64 + i as f64 });
    let q = match kind {
        0 => p.scale_global(s),
        1 => p.scale_elementwise(f.clone()),
        2 => p.bound_min(lo),
        3 => p.bound_max(hi),
        4 => p.bound_min_max(lo, hi),
        5 => p.bound_half_node(lo, hi),
        _ => p.bound_full_node(lo, hi),
    };
    same2(q.true_norm(), &t, "the magnitude of the data is kept");
    let mut big = w[[0, 0]];
    for x in &w {
        if *x > big {
            big = *x;
        }
    }
    for (i, l) in w.indexed_iter() {
        let (x, y) = (q.u()[i], q.v()[i]);
        eq(q.norm()[i] * q.norm()[i], x * x + y * y, "length of a scaled arrow");
        le(0.0, q.norm()[i], "length of a scaled arrow");
        match kind {
            0 => {
                eq(x, u[i] * s, "scaled");
                eq(y, v[i] * s, "scaled");
            }
            1 => {
                eq(x, u[i] * f[i], "scaled");
                eq(y, v[i] * f[i], "scaled");
            }
            5 | 6 => {
                let k = if kind == 5 { 0.5 } else { 1.0 };
                eq(x * big, u[i] * lo * k, "first component");
                eq(y * big, v[i] * hi * k, "second component");
            }
            _ => {
                let want = if kind != 3 && *l < lo {
                    cover("short");
                    lo
                } else if kind != 2 && *l > hi {
                    cover("long");
                    hi
                } else {
                    *l
                };
                eq(x * *l, u[i] * want, "bounded");
                eq(y * *l, v[i] * want, "bounded");
            }
        }
    }
    cover("done");
}
fn c35_unit_arrows() {
    let (g, axis, index, u, v, xs, ys) = unit_grid();
    let p = match index {
        Some(i) => UnitVectorPlot::from_vector_grid_single_plane(g, axis, i),
        None => UnitVectorPlot::from_vector_grid_depth_averaged(g, axis),
    };
    let r = [1.0, 2.5][choose("ratio", 2)];
    let ts = p.create_quiver_traces(r, None);
    check(ts.len() == u.len() + 1, "an arrow per cell and the background");
    arrows(&ts, &xs, &ys, p.u(), p.v(), p.norm(), r);
    match ts[u.len()].as_any().downcast_ref::<HeatMap<f64, f64, f64>>() {
        Some(h) => {
            heat(h, &xs, &ys, &norm(&u, &v), "background");
            scale_ok(&h.color_scale);
        }
        None => check(false, "a background"),
    }
}

// ---------------------------------------------------------------- parity
enum Par {
    Map(ParityMap),
    Contour(ParityContour),
}
impl Par {
    fn draw(&self) -> Box<HeatMap<f64, f64, f64>> {
        let mut t = match self {
            Par::Map(m) => m.create_parity_map(),
            Par::Contour(c) => c.create_parity_contour(),
        };
        check(t.len() == 1, "one trace");
        t.remove(0)
    }
    fn kind(self, k: usize) -> Par {
        match (self, k) {
            (Par::Map(m), 1) => Par::Map(m.delta_as_percent()),
            (Par::Map(m), 2) => Par::Map(m.delta_as_difference()),
            (Par::Map(m), 3) => Par::Map(m.delta_as_absolute_difference()),
            (Par::Contour(m), 1) => Par::Contour(m.delta_as_percent()),
            (Par::Contour(m), 2) => Par::Contour(m.delta_as_difference()),
            (Par::Contour(m), 3) => Par::Contour(m.delta_as_absolute_difference()),
            (m, _) => m,
        }
    }
}
fn scalar_pair(a: Box<dyn GridFunctions3D>, b: Box<dyn GridFunctions3D>, axis: usize, index: Option<usize>) -> Par {
    match (flag("contour"), index) {
        (false, Some(i)) => Par::Map(ParityMap::from_grids_single_plane(a, b, axis, i)),
        (false, None) => Par::Map(ParityMap::from_grids_depth_averaged(a, b, axis)),
        (true, Some(i)) => Par::Contour(ParityContour::from_grids_single_plane(a, b, axis, i)),
        (true, None) => Par::Contour(ParityContour::from_grids_depth_averaged(a, b, axis)),
    }
}
struct Pair {
    n: [usize; 3],
    a: (Box<dyn GridFunctions3D>, Array3<f64>, Array3<f64>),
    b: (Box<dyn GridFunctions3D>, Array3<f64>, Array3<f64>),
}
fn pair(cyl: bool) -> Pair {
    let n = NS[choose("shape", 3)];
    let f = choose("memory", 3);
    let at = some_cells(n);
    let mk = |tag: &str, k: usize| {
        let mut g = blank(n, cyl);
        let (d, w) = contents(tag, n, &at[..1], k);
        put(g.as_mut(), &d, &w, f == 1 || (f == 2 && k == 1));
        (g, d, w)
    };
    Pair { n, a: mk("a", 0), b: mk("b", 1) }
}
fn c36_map() {
    let cyl = flag("cyl");
    let p = pair(cyl);
    let axis = choose("axis", 3);
    let index = if flag("plane") { Some([0, p.n[axis] - 1][choose("index", 2)]) } else { None };
    let (xs, ys) = coords(p.a.0.as_ref(), cyl, axis);
    let (r, c) = match index {
        Some(i) => (cut(&p.a.1, axis, i), cut(&p.b.1, axis, i)),
        None => (averaged(&p.a.1, &p.a.2, axis), averaged(&p.b.1, &p.b.2, axis)),
    };
    let t = scalar_pair(p.a.0, p.b.0, axis, index).draw();
    heat(&t, &xs, &ys, &(&r - &c), "difference of a cell");
    cover("done");
}
fn vector_pair(a: VectorGrid, b: VectorGrid, axis: usize, index: Option<usize>) -> Par {
    match (flag("contour"), index) {
        (false, Some(i)) => Par::Map(ParityMap::from_vector_grids_single_plane(a, b, axis, i)),
        (false, None) => Par::Map(ParityMap::from_vector_grids_depth_averaged(a, b, axis)),
        (true, Some(i)) => Par::Contour(ParityContour::from_vector_grids_single_plane(a, b, axis, i)),
        (true, None) => Par::Contour(ParityContour::from_vector_grids_depth_averaged(a, b, axis)),
    }
}
fn c36_map_vector() {
    let n = NS[choose("shape", 3)];
    let axis = choose("axis", 3);
    let index = if flag("plane") { Some([0, n[axis] - 1][choose("index", 2)]) } else { None };
    let at = [[0, 0, 0], [n[0] - 1, n[1] - 1, n[2] - 1]][choose("at", 2)];
    let f = flag("fortran");
    let (a, da, wa) = vectors(n, false, &[at], "a", f);
    let (b, mut db, mut wb) = vectors(n, false, &[], "b", f);
    // the comparison has other values
    let mut b = b;
    for k in 0..3 {
        db[k] = db[k].mapv(|x| 1.5 - x);
        wb[k] = wb[k].mapv(|x| 4.0 - x);
        put(b.data[k].as_mut(), &db[k], &wb[k], f);
    }
    let (xs, ys) = coords(a.data[0].as_ref(), false, axis);
    let (u, v) = part(&da, &wa, axis, index);
    let (s, t) = part(&db, &wb, axis, index);
    let want = norm(&u, &v) - norm(&s, &t);
    let t = vector_pair(a, b, axis, index).draw();
    heat(&t, &xs, &ys, &want, "difference of a cell");
    cover("done");
}
/// percent, plain and absolute difference, one after another
fn c36_delta() {
    let p = pair(false);
    let axis = choose("axis", 3);
    let i = p.n[axis] - 1;
    let (xs, ys) = coords(p.a.0.as_ref(), false, axis);
    let (r, c) = (cut(&p.a.1, axis, i), cut(&p.b.1, axis, i));
    let first = choose("first", 4);
    let then = choose("then", 4);
    let q = scalar_pair(p.a.0, p.b.0, axis, Some(i)).kind(first).kind(then);
    let last = if then == 0 { first } else { then };
    for x in &r {
        assume(*x != 0.0);
    }
    let want = Array2::from_shape_fn(r.raw_dim(), |k| match last {
        1 => (r[k] - c[k]) / r[k] * 100.0,
        3 => {
            if r[k] < c[k] {
                c[k] - r[k]
            } else {
                r[k] - c[k]
            }
        }
        _ => r[k] - c[k],
    });
    heat(&q.draw(), &xs, &ys, &want, "difference of a cell");
    cover("done");
}
/// the points of a parity plot pair the values of the same cells, the line spans all values of both grids
fn parity(t: Vec<Box<Scatter<f64, f64>>>, want: Vec<(f64, f64)>, all: &[&Array3<f64>]) {
    check(t.len() == 2, "a line and points");
    let (l, p) = (&t[0], &t[1]);
    check(l.mode == Some(Mode::Lines) && p.mode == Some(Mode::Markers), "a line and points");
    check(p.x.len() == want.len() && p.y.len() == want.len(), "one point per value");
    for (i, (a, b)) in want.iter().enumerate() {
        eq(p.x[i], *a, "reference value");
        eq(p.y[i], *b, "compared value");
    }
    eq(l.x[0], l.y[0], "start of the line");
    eq(l.x[1], l.y[1], "end of the line");
    for d in all {
        for x in d.iter() {
            if !x.is_nan() {
                le(l.x[0], *x, "line starts below all values");
                le(*x, l.x[1], "line ends above all values");
            }
        }
    }
    cover("done");
}
fn c36_plot() {
    let p = pair(flag("cyl"));
    let axis = choose("axis", 3);
    let which = choose("which", 3);
    let i = p.n[axis] - 1;
    let (t, want): (_, Vec<(f64, f64)>) = match which {
        0 => (ParityPlot::from_grids(p.a.0, p.b.0), p.a.1.iter().copied().zip(p.b.1.iter().copied()).collect()),
        1 => (
            ParityPlot::from_grids_depth_averaged(p.a.0, p.b.0, axis),
            averaged(&p.a.1, &p.a.2, axis).into_iter().zip(averaged(&p.b.1, &p.b.2, axis)).collect(),
        ),
        _ => (
            ParityPlot::from_grids_single_plane(p.a.0, p.b.0, axis, i),
            cut(&p.a.1, axis, i).into_iter().zip(cut(&p.b.1, axis, i)).collect(),
        ),
    };
    parity(t.create_parity_scatter(), want, &[&p.a.1, &p.b.1]);
}
fn c36_plot_vector() {
    let n = NS[choose("shape", 3)];
    let axis = choose("axis", 3);
    let which = choose("which", 3);
    let at = [[0, 0, 0], [n[0] - 1, n[1] - 1, n[2] - 1]][choose("at", 2)];
    let f = flag("fortran");
    let (a, da, wa) = vectors(n, false, &[at], "a", f);
    let (b, db, wb) = vectors(n, false, &[], "b", f);
    let i = n[axis] - 1;
    let zip = |x: Vec<Array2<f64>>, y: Vec<Array2<f64>>| -> Vec<(f64, f64)> {
        x.into_iter().flatten().zip(y.into_iter().flatten()).collect()
    };
    let two = |p: (Array2<f64>, Array2<f64>)| vec![p.0, p.1];
    let (t, want) = match which {
        0 => (
            ParityPlot::from_vector_grids(a, b),
            da.iter().flatten().copied().zip(db.iter().flatten().copied()).collect(),
        ),
        1 => (
            ParityPlot::from_vector_grids_depth_averaged(a, b, axis),
            zip(two(part(&da, &wa, axis, None)), two(part(&db, &wb, axis, None))),
        ),
        _ => (
            ParityPlot::from_vector_grids_single_plane(a, b, axis, i),
            zip(two(part(&da, &wa, axis, Some(i))), two(part(&db, &wb, axis, Some(i)))),
        ),
    };
    parity(t.create_parity_scatter(), want, &da.iter().chain(&db).collect::<Vec<_>>());
}
