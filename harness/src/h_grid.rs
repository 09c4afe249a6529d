//! C01..C08: cell lookup, bookkeeping, collapse, slices, outliers.
use crate::sym::*;
use crate::world::*;
use crate::Entry;
use ndarray::prelude::*;
use std::f64::consts::PI;
use upppp_rust::grid::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, VectorGrid};

pub const ALL: &[Entry] = &[
    ("c01_lookup", c01_lookup),
    ("c01_limits", c01_limits),
    ("c01_centres", c01_centres),
    ("c01_many", c01_many),
    ("c01_fine", c01_fine),
    ("c01_cells", c01_cells),
    ("c02_ring", c02_ring),
    ("c02_sector", c02_sector),
    ("c02_layer", c02_layer),
    ("c02_geometry", c02_geometry),
    ("c02_all", c02_all),
    ("c02_many", c02_many),
    ("c02_outer", c02_outer),
    ("c02_rim", c02_rim),
    ("c03_cart", c03_cart),
    ("c03_cyl", c03_cyl),
    ("c03_cyl_axis", c03_cyl_axis),
    ("c03_inf", c03_inf),
    ("c03_fine", c03_fine),
    ("c03_limits", c03_limits),
    ("c04_add", c04_add),
    ("c04_ops", c04_ops),
    ("c04_index", c04_index),
    ("c04_mean", c04_mean),
    ("c04_vector", c04_vector),
    ("c04_odd", c04_odd),
    ("c04_many", c04_many),
    ("c05_cart", c05_cart),
    ("c05_cyl", c05_cyl),
    ("c05_moves", c05_moves),
    ("c06_collapse", c06_collapse),
    ("c06_two", c06_two),
    ("c06_many", c06_many),
    ("c07_cart", c07_cart),
    ("c07_cyl", c07_cyl),
    ("c07_many", c07_many),
    ("c07_rim", c07_rim),
    ("c08_modes", c08_modes),
    ("c08_mean", c08_mean),
    ("c08_many", c08_many),
    ("c08_vector", c08_vector),
];

const SHAPES: &[[usize; 3]] = &[[4, 2, 3], [1, 3, 2], [5, 1, 4], [2, 4, 1], [3, 3, 3], [1, 1, 1]];

fn shape() -> [usize; 3] {
    let n = if thorough() { SHAPES.len() } else { 4 };
    SHAPES[choose("shape", n)]
}

/// the position lies in the closed extent of the cell
fn check_extent(pos: [f64; 3], c: [usize; 3], lim: [[f64; 2]; 3], n: [usize; 3], msg: &str) {
    for k in 0..3 {
        check(c[k] < n[k], &format!("{msg}: index in range, axis {k}"));
        let w = (lim[k][1] - lim[k][0]) / n[k] as f64;
        le(lim[k][0] + w * c[k] as f64, pos[k], &format!("{msg}: above the lower face, axis {k}"));
        le(pos[k], lim[k][0] + w * (c[k] + 1) as f64, &format!("{msg}: below the upper face, axis {k}"));
    }
}

fn c01_lookup() {
    let n = shape();
    let lim = [[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]];
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let pos = [real("x", -1, 3), real("y", 0, 8), real("z", -6, 6)];
    match g.cell_id(pos) {
        Ok(c) => {
            cover("found");
            check_extent(pos, c, lim, n, "cell");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

/// the limits themselves are symbolic along one axis
fn c01_limits() {
    let axis = choose("axis", 3);
    let n = [[3, 2, 4], [1, 5, 2]][choose("shape", 2)];
    let lo = real("lo", -8, 8);
    let w = if thorough() { real("w", 1, 16) } else { [1.0, 3.0, 8.0][choose("w", 3)] };
    let mut lim = [[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]];
    lim[axis] = [lo, lo + w];
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let mut pos = [0.75, 5.5, 2.5];
    pos[axis] = real("p", -8, 24);
    assume_le(lo, pos[axis]);
    assume_le(pos[axis], lo + w);
    match g.cell_id(pos) {
        Ok(c) => {
            cover("found");
            check_extent(pos, c, lim, n, "cell");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

fn c01_centres() {
    let n = SHAPES[choose("shape", SHAPES.len())];
    let lo = [real("lo0", -8, 8), real("lo1", -8, 8), real("lo2", -8, 8)];
    let w = [4.0, 12.0, 6.0];
    let lim = [[lo[0], lo[0] + w[0]], [lo[1], lo[1] + w[1]], [lo[2], lo[2] + w[2]]];
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    check(*g.get_cells() == n, "cells");
    check(!g.is_cylindrical(), "kind");
    let ps = [g.get_xpositions(), g.get_ypositions(), g.get_zpositions()];
    for k in 0..3 {
        check(ps[k].len() == n[k], "number of centres");
        for i in 0..n[k] {
            eq(ps[k][i], lo[k] + w[k] / n[k] as f64 * (i as f64 + 0.5), "centre");
        }
        eq(g.get_limits()[k][0], lim[k][0], "lower limit");
        eq(g.get_limits()[k][1], lim[k][1], "upper limit");
    }
    check(g.get_data().shape() == &n && g.get_weights().shape() == &n, "shape");
    check(g.get_data().iter().all(|x| *x == 0.0), "fresh data");
    check(g.get_weights().iter().all(|x| *x == 0.0), "fresh weights");
    for i in 0..n[0] {
        for j in 0..n[1] {
            for k in 0..n[2] {
                match g.cell_id([ps[0][i], ps[1][j], ps[2][k]]) {
                    Ok(c) => check(c == [i, j, k], "centre lies in its own cell"),
                    Err(_) => check(false, "centre has no cell"),
                }
            }
        }
    }
    cover("done");
}

/// many cells, far from the origin, narrow and wide limits
fn c01_many() {
    let n = [[41, 2, 3], [2, 37, 5], [3, 4, 50]][choose("shape", 3)];
    let axis = choose("axis", 3);
    let lo = [[-1.0, 0.0, -6.0], [1000.0, -512.0, 0.125], [-0.0625, -3.0, -4000.0]][choose("lo", 3)];
    let w = [[4.0, 8.0, 12.0], [0.5, 640.0, 1.0]][choose("span", 2)];
    let lim = [[lo[0], lo[0] + w[0]], [lo[1], lo[1] + w[1]], [lo[2], lo[2] + w[2]]];
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let mut pos = [lo[0] + 0.25 * w[0], lo[1] + 0.875 * w[1], lo[2] + 0.625 * w[2]];
    pos[axis] = lo[axis] + w[axis] * var("p", 0, 1024, 10);
    match g.cell_id(pos) {
        Ok(c) => {
            cover("found");
            check_extent(pos, c, lim, n, "cell");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

/// hundreds of cells along one axis, limits of both signs far from the origin
fn c01_cells() {
    let axis = choose("axis", 3);
    let mut n = [2, 1, 2];
    n[axis] = 520;
    let lo = [[-20000.0, 3.0, -0.5], [4096.0, -100000.0, 0.25], [0.125, 0.0, -300.0]][choose("lo", 3)];
    let w = [1.0, 2.0, 0.75, 260.0];
    let mut lim = [[0.0; 2]; 3];
    for k in 0..3 {
        lim[k] = [lo[k], lo[k] + if k == axis { w[3] } else { w[k] }];
    }
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let ps = [g.get_xpositions(), g.get_ypositions(), g.get_zpositions()];
    for k in 0..3 {
        check(ps[k].len() == n[k], "number of centres");
        for i in 0..n[k] {
            eq(ps[k][i], lim[k][0] + (lim[k][1] - lim[k][0]) / n[k] as f64 * (i as f64 + 0.5), "centre");
        }
    }
    let mut pos = [lo[0] + 0.25 * w[0], lo[1] + 0.875 * w[1], lo[2] + 0.625 * w[2]];
    pos[axis] = lo[axis] + 0.5 * ([60.0, 250.0, 511.0][choose("from", 3)] + var("p", 0, 9216, 10));
    match g.cell_id(pos) {
        Ok(c) => {
            cover("found");
            check_extent(pos, c, lim, n, "cell");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

/// positions very close to a face (limits whose faces have no rounding)
fn c01_fine() {
    let n = [4, 2, 8];
    let lim = [[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]];
    let g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let axis = choose("axis", 3);
    let i = choose("face", n[axis] + 1);
    let x = var("x", -8, 8, 30);
    let mut pos = [0.5, 1.0, -5.25];
    pos[axis] = lim[axis][0] + (lim[axis][1] - lim[axis][0]) / n[axis] as f64 * i as f64 + x;
    let want = if x < 0.0 { i.checked_sub(1) } else if i == n[axis] && x > 0.0 { None } else { Some(i.min(n[axis] - 1)) };
    check(g.is_inside(pos) == want.is_some(), "is_inside");
    match (g.cell_id(pos), want) {
        // (on the face itself, either of the cells)
        (Ok(c), Some(w)) => {
            check(c[axis] == w || (x == 0.0 && c[axis] + 1 == w), "cell next to a face");
            cover("found")
        }
        (Err(_), None) => cover("outside"),
        _ => check(false, "inside and cell disagree"),
    }
}

// ---------------------------------------------------------------- cylinder
pub struct Cyl {
    pub n: [usize; 3],
    pub c: [f64; 2],
    pub r: f64,
    pub z: [f64; 2],
}
impl Cyl {
    pub fn grid(&self) -> CylindricalGrid3D {
        CylindricalGrid3D::new(
            self.n,
            Dim::ThreeD([
                [self.c[0] - self.r, self.c[0] + self.r],
                [self.c[1] - self.r, self.c[1] + self.r],
                self.z,
            ]),
            "volume",
        )
    }
    /// checks that (dx, dy) relative to the axis and z lie in the closed cell
    pub fn check_cell(&self, d: [f64; 2], z: f64, c: [usize; 3], msg: &str) {
        for k in 0..3 {
            check(c[k] < self.n[k], &format!("{msg}: index in range, axis {k}"));
        }
        let (n0, r2) = (self.n[0] as f64, self.r * self.r);
        let q = d[0] * d[0] + d[1] * d[1];
        le(r2 * c[0] as f64 / n0, q, &format!("{msg}: inner radius"));
        le(q, r2 * (c[0] + 1) as f64 / n0, &format!("{msg}: outer radius"));
        let w = (self.z[1] - self.z[0]) / self.n[2] as f64;
        le(self.z[0] + w * c[2] as f64, z, &format!("{msg}: above the lower face"));
        le(z, self.z[0] + w * (c[2] + 1) as f64, &format!("{msg}: below the upper face"));
        let s = 2.0 * PI / self.n[1] as f64;
        in_sector(d, -PI + s * c[1] as f64, s, &format!("{msg}: sector"));
    }
}
/// (dx, dy) is at an angle in [a, a + s] (up to rounding), s in (0, 2 pi]
pub fn in_sector(d: [f64; 2], a: f64, s: f64, msg: &str) {
    if s > 2.0 * PI - 1e-9 {
        return;
    }
    let (b0, b1) = ([a.cos(), a.sin()], [(a + s).cos(), (a + s).sin()]);
    let left = b0[0] * d[1] - b0[1] * d[0]; // >= 0: left of the first ray
    let right = d[0] * b1[1] - d[1] * b1[0]; // >= 0: right of the second ray
    if s <= PI + 1e-9 {
        le(0.0, left, &format!("{msg} starts after"));
        le(0.0, right, &format!("{msg} ends before"));
    } else {
        check(left >= -1e-7 || right >= -1e-7, &format!("{msg} (wide)"));
    }
}

fn c02_ring() {
    let n = [1, 2, 3, 5][choose("n", 4)];
    let r = [1.0, 4.0][choose("r", 2)];
    let cyl = Cyl { n: [n, 3, 2], c: [real("cx", -8, 8), real("cy", -8, 8)], r, z: [-1.0, 3.0] };
    let g = cyl.grid();
    // any direction: a rational point on the unit circle, radius symbolic
    let dir = [[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0], [0.6, 0.8], [-0.8, 0.6], [-0.28, -0.96], [0.96, -0.28]]
        [choose("dir", if thorough() { 8 } else { 6 })];
    let q = real("q", 0, 4);
    assume_le(q, r);
    let d = [q * dir[0], q * dir[1]];
    match g.cell_id([cyl.c[0] + d[0], cyl.c[1] + d[1], 1.5]) {
        Ok(c) => {
            cover("found");
            cyl.check_cell(d, 1.5, c, "ring");
        }
        // the outer edge itself may be lost to rounding
        Err(_) => le(r, q, "an inside position has no cell"),
    }
}

/// every direction: both coordinates symbolic
fn c02_sector() {
    let n = [1, 2, 3, 4, 8][choose("n", if thorough() { 5 } else { 4 })];
    let cyl = Cyl { n: [1, n, 1], c: [2.0, -1.0], r: 4.0, z: [-1.0, 3.0] };
    let g = cyl.grid();
    let d = [real("dx", -2, 2), real("dy", -2, 2)];
    match g.cell_id([cyl.c[0] + d[0], cyl.c[1] + d[1], 1.5]) {
        Ok(c) => {
            cover("found");
            cyl.check_cell(d, 1.5, c, "sector");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

fn c02_layer() {
    let n = [1, 2, 3, 5][choose("n", 4)];
    let lo = real("lo", -8, 8);
    let h = [1.0, 6.0][choose("h", 2)];
    let cyl = Cyl { n: [2, 3, n], c: [0.0, 0.0], r: 2.0, z: [lo, lo + h] };
    let g = cyl.grid();
    let z = real("z", -8, 16);
    assume_le(lo, z);
    assume_le(z, lo + h);
    match g.cell_id([0.5, 0.25, z]) {
        Ok(c) => {
            cover("found");
            cyl.check_cell([0.5, 0.25], z, c, "layer");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

fn c02_all() {
    let n = [[2, 3, 2], [3, 2, 2], [2, 4, 3]][choose("n", 3)];
    let cyl = Cyl { n, c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let g = cyl.grid();
    let d = [real("dx", -2, 2), real("dy", -2, 2)];
    let z = real("z", -1, 3);
    assume_le(d[0] * d[0] + d[1] * d[1], 3.9375);
    match g.cell_id([cyl.c[0] + d[0], cyl.c[1] + d[1], z]) {
        Ok(c) => {
            cover("found");
            cyl.check_cell(d, z, c, "cell");
        }
        Err(_) => check(false, "an inside position has no cell"),
    }
}

fn c02_geometry() {
    let n = [1, 2, 3, 5][choose("n", 4)];
    let r = real("r", 1, 16);
    let cyl = Cyl { n: [n, 3, 2], c: [real("cx", -8, 8), real("cy", -8, 8)], r, z: [-1.0, 3.0] };
    let g = cyl.grid();
    check(g.is_cylindrical(), "kind");
    check(*g.get_cells() == cyl.n, "cells");
    eq(g.center()[0], cyl.c[0], "centre x");
    eq(g.center()[1], cyl.c[1], "centre y");
    eq(*g.radius(), r, "radius");
    let l = g.get_limits();
    eq(l[0][0], 0.0, "radius starts at the axis");
    eq(l[0][1], r, "radius ends at the wall");
    eq(l[1][0], -PI, "angles start");
    eq(l[1][1], PI, "angles end");
    eq(l[2][0], -1.0, "height starts");
    eq(l[2][1], 3.0, "height ends");
    let rp = g.rpositions();
    check(rp.len() == n, "number of rings");
    for i in 0..n {
        let a = rp[i][0] * rp[i][0];
        let b = rp[i][1] * rp[i][1];
        eq(b - a, r * r / n as f64, "rings have the same volume");
        if i == 0 {
            eq(rp[i][0], 0.0, "first ring starts at the axis");
        } else {
            eq(rp[i][0], rp[i - 1][1], "rings have no gaps");
        }
        eq(g.get_xpositions()[i] * 2.0, rp[i][0] + rp[i][1], "mean radius");
    }
    eq(rp[n - 1][1] * rp[n - 1][1], r * r, "last ring ends at the wall");
    // sectors and layers are listed by their upper faces
    let (o, z) = (g.get_ypositions(), g.get_zpositions());
    check(o.len() == 3 && z.len() == 2, "number of sectors and layers");
    for i in 0..3 {
        check((o[i] - (-PI + 2.0 * PI * (i + 1) as f64 / 3.0)).abs() < 1e-9, "face of a sector");
    }
    for i in 0..2 {
        eq(z[i], -1.0 + 2.0 * (i + 1) as f64, "face of a layer");
    }
    check(g.get_data().iter().chain(g.get_weights().iter()).all(|x| *x == 0.0), "fresh");
    check(g.get_data().shape() == &cyl.n && g.get_weights().shape() == &cyl.n, "shape");
    cover("done");
}

/// many rings, sectors and layers; one coordinate free
fn c02_many() {
    let shape = choose("shape", 6);
    let n = [[17, 3, 2], [2, 12, 5], [3, 4, 23], [300, 3, 2], [2, 300, 1], [3, 2, 300]][shape];
    let cyl = Cyl { n, c: [100.0, -0.5], r: 2.0, z: [-300.0, -299.0] };
    let g = cyl.grid();
    // (of hundreds, only the last ones)
    let q = if shape < 3 { var("q", 0, 1024, 10) } else { var("q", 935, 955, 10) };
    let (mut d, mut z) = ([0.5, -0.25], -299.625);
    match if shape < 3 { choose("axis", 3) } else { shape - 3 } {
        0 => d = [[1.2 * q, -1.6 * q], [-2.0 * q, 0.0]][choose("dir", 2)],
        1 => d = [[q, 1.0 - q], [-q, 1.0 - q], [-q, q - 1.0], [q, q - 1.0]][choose("quarter", 4)],
        _ => z = -300.0 + q,
    }
    match g.cell_id([cyl.c[0] + d[0], cyl.c[1] + d[1], z]) {
        Ok(c) => {
            cover("found");
            cyl.check_cell(d, z, c, "cell");
        }
        Err(_) => le(1.0, q, "an inside position has no cell"),
    }
}

/// limits of different widths: the larger half width is the outer radius; other modes and dimensions are refused
/// the rim belongs to the last ring, however the radii of the rings are rounded
fn c02_rim() {
    let nr = 1 + choose("rings", 60);
    let r = [2.0, 0.75, 5.5, 0.1][choose("radius", 4)];
    let no = [3, 1][choose("sectors", 2)];
    let g = Cyl { n: [nr, no, 2], c: [0.0, 0.0], r, z: [-1.0, 3.0] }.grid();
    for p in [[r, 0.0], [-r, 0.0], [0.0, r], [0.0, -r]] {
        match g.cell_id([p[0], p[1], 0.5]) {
            Ok(c) => check(c[0] == nr - 1 && c[1] < no && c[2] == 0, "the rim is in the last ring"),
            Err(_) => check(false, "the rim is inside"),
        }
    }
    cover("done");
}
fn c02_outer() {
    let (x, y) = (real("x", -8, 8), real("y", -8, 8));
    let (a, b) = (real("a", 1, 8), real("b", 1, 8));
    let lim = [[x - a, x + a], [y - b, y + b], [-1.0, 3.0]];
    let n = [[2, 4, 2], [1, 1, 1], [3, 1, 2]][choose("cells", 3)];
    match choose("kind", 3) {
        0 => {
            let g = CylindricalGrid3D::new(n, Dim::ThreeD(lim), "volume");
            eq(*g.radius(), if a > b { a } else { b }, "radius");
            eq(g.center()[0], x, "centre x");
            eq(g.center()[1], y, "centre y");
            eq(g.get_limits()[0][1], *g.radius(), "limits");
            cover(if a > b { "first" } else { "second" });
        }
        1 => {
            let r = catches(|| CylindricalGrid3D::new(n, Dim::ThreeD(lim), ["equidistant", ""][choose("mode", 2)]));
            check(r.is_err(), "an unknown mode is accepted");
        }
        _ => {
            let l = [lim[0], lim[1]];
            check(catches(|| CylindricalGrid3D::new(n, Dim::TwoD(l), "volume")).is_err(), "two dimensions are accepted");
            check(catches(|| CartesianGrid3D::new(n, Dim::TwoD(l))).is_err(), "two dimensions are accepted");
        }
    }
}

// ---------------------------------------------------------------- outside
fn unchanged(g: &dyn GridFunctions3D, d: &Array3<f64>, w: &Array3<f64>, msg: &str) {
    for (a, b) in g.get_data().iter().zip(d.iter()).chain(g.get_weights().iter().zip(w.iter())) {
        eq(*a, *b, msg);
    }
}
fn reject(g: &mut dyn GridFunctions3D, pos: [f64; 3]) {
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    check(g.cell_id(pos).is_err(), "lookup of an outside position succeeds");
    check(g.get_value(pos).is_nan(), "reading an outside position");
    g.add_value(pos, 2.0);
    g.insert(pos, 3.0);
    unchanged(g, &d, &w, "an outside position changed a cell");
}
fn accept(g: &mut dyn GridFunctions3D, pos: [f64; 3]) {
    match g.cell_id(pos) {
        Ok(c) => {
            let v = g.get_data()[c];
            eq(g.get_value(pos), v, "reading an inside position");
            g.add_value(pos, 2.0);
            eq(g.get_data()[c], v + 2.0, "adding at an inside position");
            g.insert(pos, 3.0);
            eq(g.get_data()[c], 3.0, "inserting at an inside position");
        }
        Err(_) => check(false, "lookup of an inside position fails"),
    }
}
fn prefill(g: &mut dyn GridFunctions3D) {
    let n = *g.get_cells();
    g.set_data(Array3::from_shape_fn(n, |(i, j, k)| 1.0 + (i + 3 * j + 7 * k) as f64));
    g.set_weights(Array3::from_shape_fn(n, |(i, j, k)| 2.0 + (2 * i + 5 * j + k) as f64));
}

fn c03_cart() {
    let lim = [[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]];
    let mut g = CartesianGrid3D::new([2, 1, 3], Dim::ThreeD(lim));
    prefill(&mut g);
    let pos = [maybe_nan("x", -4, 8), maybe_nan("y", -4, 12), maybe_nan("z", -8, 8)];
    let mut inside = true;
    for k in 0..3 {
        inside = inside && pos[k] >= lim[k][0] && pos[k] <= lim[k][1];
    }
    check(g.is_inside(pos) == inside, "is_inside");
    if inside {
        cover("inside");
        accept(&mut g, pos);
    } else {
        cover("outside");
        reject(&mut g, pos);
    }
}

fn c03_cyl() {
    let cyl = Cyl { n: [2, 3, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let mut g = cyl.grid();
    prefill(&mut g);
    let d = [maybe_nan("dx", -4, 4), maybe_nan("dy", -4, 4)];
    let z = maybe_nan("z", -3, 5);
    let q = d[0] * d[0] + d[1] * d[1];
    let pos = [cyl.c[0] + d[0], cyl.c[1] + d[1], z];
    // a band around the wall is left to rounding
    if q <= 3.9999 && z >= -1.0 && z <= 3.0 {
        cover("inside");
        check(g.is_inside(pos), "an inside position is reported as outside");
        accept(&mut g, pos);
    } else if !(q <= 4.0001 && z >= -1.0 && z <= 3.0) {
        cover("outside");
        check(!g.is_inside(pos), "an outside position is reported as inside");
        reject(&mut g, pos);
    }
}

/// along the coordinate directions the wall is exact
fn c03_cyl_axis() {
    let cyl = Cyl { n: [2, 4, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let mut g = cyl.grid();
    prefill(&mut g);
    let q = real("q", -4, 4);
    let (d, inside) = if flag("y") { ([0.0, q], q >= -2.0 && q <= 2.0) } else { ([q, 0.0], q >= -2.0 && q <= 2.0) };
    let z = real("z", -3, 5);
    let inside = inside && z >= -1.0 && z <= 3.0;
    let pos = [cyl.c[0] + d[0], cyl.c[1] + d[1], z];
    check(g.is_inside(pos) == inside, "is_inside");
    if inside {
        cover("inside");
        accept(&mut g, pos);
    } else {
        cover("outside");
        reject(&mut g, pos);
    }
}

/// limits anywhere (below, around and above zero) along one axis
fn c03_limits() {
    let axis = choose("axis", 3);
    let lo = real("lo", -16, 16);
    let w = [1.0, 3.0, 8.0][choose("w", 3)];
    let d = real("d", -16, 24);
    let mut lim = [[-9.0, -5.0], [2.0, 8.0], [-6.0, -1.0]];
    lim[axis] = [lo, lo + w];
    let mut pos = [-7.75, 5.5, -3.5];
    pos[axis] = lo + d;
    let mut g: Box<dyn GridFunctions3D> = if flag("cyl") {
        // x and y: the centre moves
        let z = if axis == 2 { lim[2] } else { [-6.0, -1.0] };
        let c = [if axis == 0 { lo + w / 2.0 } else { -7.75 }, if axis == 1 { lo + w / 2.0 } else { 5.5 }];
        let r = if axis == 2 { 2.5 } else { w / 2.0 };
        Box::new(Cyl { n: [2, 3, 2], c, r, z }.grid())
    } else {
        Box::new(CartesianGrid3D::new([2, 1, 3], Dim::ThreeD(lim)))
    };
    prefill(g.as_mut());
    let inside = d >= 0.0 && d <= w;
    check(g.is_inside(pos) == inside, "is_inside");
    if inside {
        cover("inside");
        accept(g.as_mut(), pos);
    } else {
        cover("outside");
        reject(g.as_mut(), pos);
    }
}

/// positions very close to a limit
fn c03_fine() {
    let lim = [[-1.0, 3.0], [-4.0, 0.0], [-6.0, 6.0]];
    let mut g: Box<dyn GridFunctions3D> = if flag("cyl") {
        Box::new(Cyl { n: [2, 4, 2], c: [1.0, -2.0], r: 2.0, z: lim[2] }.grid())
    } else {
        Box::new(CartesianGrid3D::new([2, 1, 3], Dim::ThreeD(lim)))
    };
    prefill(g.as_mut());
    let (axis, side) = (choose("axis", 3), choose("side", 2));
    let x = var("x", -8, 8, 30);
    let mut pos = [1.0, -2.0, 0.5];
    pos[axis] = lim[axis][side] + x;
    let inside = if side == 0 { x >= 0.0 } else { x <= 0.0 };
    check(g.is_inside(pos) == inside, "is_inside next to a limit");
    if inside {
        cover("inside");
        accept(g.as_mut(), pos);
    } else {
        cover("outside");
        reject(g.as_mut(), pos);
    }
}

/// one coordinate is infinite, the others are anywhere
fn c03_inf() {
    let cyl = Cyl { n: [2, 4, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let mut g: Box<dyn GridFunctions3D> = if flag("cyl") {
        Box::new(cyl.grid())
    } else {
        Box::new(CartesianGrid3D::new([2, 1, 3], Dim::ThreeD([[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]])))
    };
    prefill(g.as_mut());
    let k = choose("axis", 3);
    let mut pos = [1.5, -1.5, 0.5];
    pos[(k + 1) % 3] = real("p", -4, 4);
    pos[k] = [f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300][choose("far", 4)];
    check(!g.is_inside(pos), "a position at infinity is inside");
    reject(g.as_mut(), pos);
    cover("outside");
}

// ---------------------------------------------------------------- bookkeeping
/// a grid of the chosen kind together with one position per cell index used by the harnesses
fn some_grid() -> (Box<dyn GridFunctions3D>, Vec<[f64; 3]>) {
    if flag("cyl") {
        let cyl = Cyl { n: [2, 4, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
        // ring 0/1, sector 2 (0..pi/2) / 0 (-pi..-pi/2)
        let g = cyl.grid();
        (Box::new(g), vec![[1.5, -1.5, 0.5], [2.25, -0.75, 0.5], [1.5, -1.5, 2.0], [0.5, -2.5, 0.5]])
    } else {
        let g = CartesianGrid3D::new([2, 3, 2], Dim::ThreeD([[-1.0, 3.0], [0.0, 6.0], [-6.0, 6.0]]));
        (Box::new(g), vec![[0.5, 1.0, -3.0], [1.5, 1.0, -3.0], [0.5, 3.0, -3.0], [0.5, 1.0, 3.0]])
    }
}
fn cells_of(cylg: bool) -> Vec<[usize; 3]> {
    if cylg {
        vec![[0, 2, 0], [1, 2, 0], [0, 2, 1], [0, 0, 0]]
    } else {
        vec![[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]
    }
}
fn sym_fill(g: &mut dyn GridFunctions3D, w_lo: i64) -> (Array3<f64>, Array3<f64>) {
    let n = *g.get_cells();
    let d = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("d{i}{j}{k}"), -8, 8));
    let w = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("w{i}{j}{k}"), w_lo, 8));
    g.set_data(d.clone());
    g.set_weights(w.clone());
    for (a, b) in g.get_data().iter().zip(d.iter()) {
        eq(*a, *b, "set_data stores the array");
    }
    for (a, b) in g.get_weights().iter().zip(w.iter()) {
        eq(*a, *b, "set_weights stores the array");
    }
    (d, w)
}
fn same(g: &dyn GridFunctions3D, d: &Array3<f64>, w: &Array3<f64>, msg: &str) {
    for ((i, a), b) in g.get_data().indexed_iter().zip(d.iter()) {
        eq(*a, *b, &format!("{msg}: data of {i:?}"));
    }
    for ((i, a), b) in g.get_weights().indexed_iter().zip(w.iter()) {
        eq(*a, *b, &format!("{msg}: weight of {i:?}"));
    }
}
/// reading by index
fn c04_index() {
    let n = [2, 3, 2];
    let l = [[-1.0, 3.0], [-2.0, 2.0], [-6.0, 6.0]];
    let mut c = CartesianGrid3D::new(n, Dim::ThreeD(l));
    let mut y = CylindricalGrid3D::new(n, Dim::ThreeD(l), "volume");
    let (d, _) = sym_fill(&mut c, 0);
    y.set_data(d.clone());
    let i = [choose("i", 2), choose("j", 3), choose("k", 2)];
    eq(c[i], d[i], "value by index");
    eq(y[i], d[i], "value by index");
    cover("done");
}
fn c04_add() {
    let (mut g, ps) = some_grid();
    let cs = cells_of(g.is_cylindrical());
    let (mut d, mut w) = sym_fill(g.as_mut(), -8);
    let steps = if thorough() { 3 } else { 2 };
    for s in 0..steps {
        let i = choose("at", ps.len());
        let v = real(&format!("v{s}"), -8, 8);
        match choose("op", 4) {
            0 => {
                g.add_value(ps[i], v);
                d[cs[i]] += v;
                w[cs[i]] += 1.0;
            }
            1 => {
                g.insert(ps[i], v);
                d[cs[i]] = v;
            }
            2 => {
                g.add_to_cell(cs[i], v);
                d[cs[i]] += v;
                w[cs[i]] += 1.0;
            }
            _ => eq(g.get_value(ps[i]), d[cs[i]], "get_value"),
        }
        if s + 1 == steps {
            same(g.as_ref(), &d, &w, "after the operations");
            cover("done");
        }
    }
}
fn c04_ops() {
    let (mut g, _) = some_grid();
    let (d, w) = sym_fill(g.as_mut(), 1);
    let n = *g.get_cells();
    let s = real("s", 1, 8);
    let o = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("o{i}{j}{k}"), 1, 8));
    match choose("op", 5) {
        0 => {
            g.divide_by_scalar(s);
            same(g.as_ref(), &d.mapv(|x| x / s), &w, "divide_by_scalar");
        }
        1 => {
            g.divide_by_array(&o);
            same(g.as_ref(), &(&d / &o), &w, "divide_by_array");
        }
        2 => {
            g.divide_by_weight();
            same(g.as_ref(), &(&d / &w), &w, "divide_by_weight");
        }
        3 => {
            // other shapes are rejected and change nothing
            let bad = match choose("shape", 3) {
                0 => [n[0] + 1, n[1], n[2]],
                1 => [n[1], n[0], n[2]],
                _ => [n[0], n[1], n[2] - 1],
            };
            if bad != n {
                check(catches(|| g.set_data(Array3::zeros(bad))).is_err(), "set_data takes another shape");
                check(catches(|| g.set_weights(Array3::zeros(bad))).is_err(), "set_weights takes another shape");
            }
            same(g.as_ref(), &d, &w, "after a rejected array");
        }
        _ => {
            let z = g.new_zeros();
            check(*z.get_cells() == n && z.is_cylindrical() == g.is_cylindrical(), "emptied copy: kind and cells");
            for k in 0..3 {
                for e in 0..2 {
                    eq(z.get_limits()[k][e], g.get_limits()[k][e], "emptied copy: limits");
                }
            }
            same(z.as_ref(), &Array3::zeros(n), &Array3::zeros(n), "emptied copy");
            let c = g.clone();
            same(c.as_ref(), &d, &w, "copy");
            same(g.as_ref(), &d, &w, "the original");
        }
    }
    cover("done");
}
/// undefined, infinite and zero values follow the usual arithmetic
fn c04_odd() {
    let (mut g, ps) = some_grid();
    let cs = cells_of(g.is_cylindrical());
    let n = *g.get_cells();
    let x = real("x", -8, 8);
    let mut d = Array3::from_shape_fn(n, |(i, j, k)| [2.0, NAN, 0.0, -3.0, f64::INFINITY, 0.5, -0.25][(4 * i + 2 * j + k) % 7]);
    let mut w = Array3::from_shape_fn(n, |(i, j, k)| [1.0, 0.0, 2.0, 0.5][(i + 2 * j + k) % 4]);
    let i = choose("at", ps.len());
    d[cs[0]] = [NAN, 1.5, x][choose("data", 3)];
    w[cs[0]] = [0.0, 0.25][choose("weight", 2)];
    g.set_data(d.clone());
    g.set_weights(w.clone());
    let v = [NAN, f64::INFINITY, 0.0, -2.0, x][choose("value", 5)];
    match choose("op", 6) {
        0 => {
            g.add_value(ps[i], v);
            d[cs[i]] += v;
            w[cs[i]] += 1.0;
        }
        1 => {
            g.insert(ps[i], v);
            d[cs[i]] = v;
        }
        2 => {
            g.add_to_cell(cs[i], v);
            d[cs[i]] += v;
            w[cs[i]] += 1.0;
        }
        3 => {
            let z = [0.0, -2.0, f64::INFINITY][i % 3];
            d[cs[0]] = 1.5;
            g.set_data(d.clone());
            g.divide_by_scalar(z);
            d.mapv_inplace(|a| a / z);
        }
        4 => {
            d[cs[0]] = 1.5;
            g.set_data(d.clone());
            let o = Array3::from_shape_fn(n, |(i, j, k)| [0.0, -1.0, NAN, 2.0][(i + j + k) % 4]);
            g.divide_by_array(&o);
            d = &d / &o;
        }
        _ => {
            d[cs[0]] = 1.5;
            g.set_data(d.clone());
            g.divide_by_weight();
            d = &d / &w;
        }
    }
    same(g.as_ref(), &d, &w, "odd values");
    cover("done");
}
/// a vector grid does to its components what three grids do
fn c04_vector() {
    let (g, ps) = some_grid();
    let cs = cells_of(g.is_cylindrical());
    let n = *g.get_cells();
    let mut v = VectorGrid::new(g.clone());
    let mut one: Vec<Box<dyn GridFunctions3D>> = vec![];
    for c in 0..3 {
        let mut d = Array3::from_shape_fn(n, |(i, j, k)| (c * 7 + i * 5 + j * 3 + k) as f64);
        d[cs[0]] = real(&format!("d{c}"), -8, 8);
        let mut w = Array3::from_shape_fn(n, |(i, j, k)| (1 + c + i + 2 * j + k) as f64);
        w[cs[0]] = real(&format!("w{c}"), 1, 8);
        v.data[c].set_data(d);
        v.data[c].set_weights(w);
        one.push(v.data[c].clone());
    }
    let i = choose("at", ps.len());
    let s = [1.0, -1.0][choose("sign", 2)] * real("s", 1, 8);
    let o = Array3::from_shape_fn(n, |(i, j, k)| 1.0 + (i + 2 * j + 3 * k) as f64);
    let mut each = |f: &dyn Fn(&mut dyn GridFunctions3D)| {
        f(&mut v);
        one.iter_mut().for_each(|g| f(g.as_mut()));
    };
    match choose("op", 9) {
        0 => each(&|g| g.add_value(ps[i], s)),
        1 => each(&|g| g.insert(ps[i], s)),
        2 => each(&|g| g.add_to_cell(cs[i], s)),
        3 => each(&|g| g.divide_by_scalar(s)),
        4 => each(&|g| g.divide_by_array(&o)),
        5 => each(&|g| g.divide_by_weight()),
        6 => each(&|g| g.set_weights(o.clone())),
        7 => each(&|g| g.add_trajectory_value(ps[i], ps[0], s)),
        _ => each(&|g| g.outlier_removal(6.5, i % 3)),
    }
    for c in 0..3 {
        same(v.data[c].as_ref(), one[c].get_data(), one[c].get_weights(), "component of a vector grid");
    }
    check(*v.get_cells() == n && v.is_cylindrical() == one[0].is_cylindrical(), "kind and cells");
    check(v.cell_id(ps[i]).unwrap() == cs[i] && v.is_inside(ps[i]), "lookup");
    same(&v, one[0].get_data(), one[0].get_weights(), "the data of a vector grid is that of its first component");
    check(v.collapse_two(0, 2) == one[0].collapse_two(0, 2), "collapsed data of a vector grid");
    check(v.collapse_weight(1) == one[0].collapse_weight(1), "collapsed weights of a vector grid");
    check(v.collapse_two_weight(2, 1) == one[0].collapse_two_weight(2, 1), "collapsed weights of a vector grid");
    cover("done");
}
fn c04_mean() {
    let (mut g, ps) = some_grid();
    let cs = cells_of(g.is_cylindrical());
    let m = if thorough() { 4 } else { 3 };
    let mut sum = Array3::<f64>::zeros(*g.get_cells());
    let mut cnt = sum.clone();
    for s in 0..m {
        let i = choose("at", 3);
        let v = real(&format!("v{s}"), -8, 8);
        g.add_value(ps[i], v);
        sum[cs[i]] += v;
        cnt[cs[i]] += 1.0;
    }
    g.divide_by_weight();
    let want = &sum / &cnt;
    same(g.as_ref(), &want, &cnt, "mean of the added values");
    cover("done");
}

/// hundreds of operations on one grid, the last ones symbolic; divisors of both signs
fn c04_many() {
    let (mut g, ps) = some_grid();
    let cs = cells_of(g.is_cylindrical());
    let mut sum = Array3::<f64>::zeros(*g.get_cells());
    let mut cnt = sum.clone();
    for s in 0..300 {
        let i = if s % 11 == 3 { s % 4 } else { 1 };
        let v = if s >= 297 { real(&format!("v{s}"), -8, 8) } else { 0.25 * (s % 17) as f64 };
        if s % 2 == 0 {
            g.add_value(ps[i], v);
        } else {
            g.add_to_cell(cs[i], v);
        }
        sum[cs[i]] += v;
        cnt[cs[i]] += 1.0;
    }
    let d = real("divisor", 1, 8) * [1.0, -1.0, 0.125][choose("kind", 3)];
    match choose("by", 3) {
        0 => {
            g.divide_by_weight();
            same(g.as_ref(), &(&sum / &cnt), &cnt, "mean of the added values");
        }
        1 => {
            g.divide_by_scalar(d);
            same(g.as_ref(), &sum.mapv(|x| x / d), &cnt, "divided by a number");
        }
        _ => {
            let o = sum.mapv(|x| if x == 0.0 { d } else { 2.0 * d });
            g.divide_by_array(&o);
            same(g.as_ref(), &(&sum / &o), &cnt, "divided by an array");
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- trajectories
fn c05_cart() {
    let n = [[3, 2, 2], [1, 4, 3]][choose("shape", 2)];
    let lim = [[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]];
    let mut g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let k = choose("axis", 3);
    let mut a = [0.75, 5.5, 2.5];
    let mut b = [0.25, 6.5, 1.5];
    a[k] = real("a", -8, 10);
    b[k] = real("b", -8, 10);
    let v = real("v", -4, 4);
    prefill(&mut g);
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    trajectory(&mut g, a, b, v, &d, &w);
}
fn c05_cyl() {
    let cyl = Cyl { n: [2, 3, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let mut g = cyl.grid();
    let mut a = [1.5, -1.5, 0.5];
    let mut b = [0.5, -2.5, 2.5];
    let k = choose("axis", 3);
    a[k] = real("a", -5, 5);
    b[k] = real("b", -5, 5);
    let v = real("v", -4, 4);
    prefill(&mut g);
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    trajectory(&mut g, a, b, v, &d, &w);
}
fn trajectory(g: &mut dyn GridFunctions3D, a: [f64; 3], b: [f64; 3], v: f64, d: &Array3<f64>, w: &Array3<f64>) {
    let (ia, ib) = (g.is_inside(a), g.is_inside(b));
    let cyl = g.is_cylindrical();
    let (ca, cb) = (g.cell_id(a).ok(), g.cell_id(b).ok());
    g.add_trajectory_value(a, b, v);
    if !ia {
        cover("start outside");
        same(g, d, w, "start outside");
        return;
    }
    let mut sd = 0.0;
    let mut sw = 0.0;
    for ((i, x), y) in g.get_data().indexed_iter().zip(d.iter()) {
        sd += x - y;
        let dw = g.get_weights()[i] - w[i];
        sw += dw;
        // no weight, no data
        if !is_sym(dw) && dw == 0.0 {
            eq(*x, *y, "a cell without additional weight changed");
        } else {
            le(0.0, dw, "weights never shrink");
            // only cells in the box spanned by the end cells
            if let (Some(p), Some(q)) = (ca, cb) {
                let j = [i.0, i.1, i.2];
                for m in 0..3 {
                    if !(cyl && m == 1) {
                        check(j[m] >= p[m].min(q[m]) && j[m] <= p[m].max(q[m]), "a cell off the move changed");
                    }
                }
            }
        }
    }
    if ib || cyl {
        cover("conserved");
        eq(sd, v, "the deposited value is conserved");
        eq(sw, 1.0, "the deposited weight is one");
    } else {
        // leaving the grid: at most the share inside is deposited
        cover("leaves");
        le(0.0, sw, "weight of a move that leaves");
        le(sw, 1.0, "weight of a move that leaves");
        eq(sd, v * sw, "value follows the weight");
    }
}

/// several deposits one after the other along any move (also undefined ones)
fn c05_moves() {
    let cyl = flag("cyl");
    let (mut g, spots): (Box<dyn GridFunctions3D>, [[f64; 3]; 5]) = if cyl {
        let c = Cyl { n: [2, 3, 2], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
        (Box::new(c.grid()), [[1.5, -1.5, 0.5], [0.5, -2.5, 2.5], [2.5, -2.25, 2.0], [4.5, -2.0, 0.0], [NAN, -2.0, 0.0]])
    } else {
        (
            Box::new(CartesianGrid3D::new([5, 2, 3], Dim::ThreeD([[-1.0, 3.0], [0.0, 8.0], [-6.0, 6.0]]))),
            [[-0.75, 0.5, -5.0], [2.75, 7.5, 5.0], [1.0, 3.0, 0.5], [1.0, 9.0, 0.5], [1.0, 3.0, NAN]],
        )
    };
    prefill(g.as_mut());
    for s in 0..2 {
        let (i, j) = (choose(&format!("from{s}"), 5), choose(&format!("to{s}"), 5));
        let v = if flag("zero") { 0.0 } else { real(&format!("v{s}"), -4, 4) };
        let (d, w) = (g.get_data().clone(), g.get_weights().clone());
        trajectory(g.as_mut(), spots[i], spots[j], v, &d, &w);
    }
}

// ---------------------------------------------------------------- collapse
fn any_grid(n: [usize; 3], cyl: bool) -> Box<dyn GridFunctions3D> {
    if cyl {
        Box::new(Cyl { n, c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] }.grid())
    } else {
        Box::new(CartesianGrid3D::new(n, Dim::ThreeD([[-1.0, 3.0], [0.0, 6.0], [-6.0, 6.0]])))
    }
}
const CSH: &[[usize; 3]] = &[[2, 3, 1], [3, 1, 2], [1, 2, 3], [2, 2, 2], [2, 3, 2]];
fn filled(n: [usize; 3], cyl: bool) -> (Box<dyn GridFunctions3D>, Array3<f64>, Array3<f64>) {
    let mut g = any_grid(n, cyl);
    let nan = choose("nan", 3); // none, first, one in the middle
    let zero = flag("zero"); // a line without any weight
    let d = Array3::from_shape_fn(n, |(i, j, k)| {
        if (nan == 1 && i + j + k == 0) || (nan == 2 && i == n[0] - 1 && j == n[1] / 2 && k == n[2] / 2) {
            NAN
        } else {
            real(&format!("d{i}{j}{k}"), -8, 8)
        }
    });
    let w = Array3::from_shape_fn(n, |(i, j, k)| {
        if zero && i == 0 && j == 0 {
            0.0
        } else if zero && k == 0 && i > 0 {
            0.0
        } else {
            real(&format!("w{i}{j}{k}"), 1, 8)
        }
    });
    g.set_data(d.clone());
    g.set_weights(w.clone());
    (g, d, w)
}
fn nz(x: f64) -> f64 {
    if x.is_nan() {
        0.0
    } else {
        x
    }
}
fn c06_collapse() {
    let n = CSH[choose("shape", if thorough() { 5 } else { 4 })];
    let (g, d, w) = filled(n, flag("cyl"));
    let axis = choose("axis", 3);
    let m: Vec<usize> = (0..3).filter(|k| *k != axis).collect();
    let r = g.collapse(axis);
    let rw = g.collapse_weight(axis);
    check(r.shape() == &[n[m[0]], n[m[1]]] && rw.shape() == r.shape(), "shape");
    for a in 0..n[m[0]] {
        for b in 0..n[m[1]] {
            let (mut s, mut sw) = (0.0, 0.0);
            for c in 0..n[axis] {
                let mut i = [0; 3];
                i[axis] = c;
                i[m[0]] = a;
                i[m[1]] = b;
                s = s + nz(d[i]) * w[i];
                sw = sw + w[i];
            }
            eq(rw[[a, b]], sw, "collapsed weight");
            if !is_sym(sw) && sw == 0.0 {
                check(r[[a, b]].is_nan(), "a line without weight has no mean");
            } else {
                eq(r[[a, b]] * sw, s, "collapsed mean");
            }
        }
    }
    // the grid itself is untouched
    for (i, x) in g.get_data().indexed_iter() {
        eq(*x, d[i], "data untouched");
    }
    cover("done");
}
fn c06_two() {
    let n = CSH[choose("shape", if thorough() { 5 } else { 4 })];
    let (g, d, w) = filled(n, flag("cyl"));
    let (a1, a2) = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][choose("axes", 6)];
    let rest = 3 - a1 - a2;
    let r = g.collapse_two(a1, a2);
    let rw = g.collapse_two_weight(a1, a2);
    check(r.len() == n[rest] && rw.len() == n[rest], "length");
    for c in 0..n[rest] {
        let (mut s, mut sw) = (0.0, 0.0);
        for (i, x) in d.indexed_iter() {
            if [i.0, i.1, i.2][rest] == c {
                s = s + nz(*x) * w[i];
                sw = sw + w[i];
            }
        }
        eq(rw[c], sw, "collapsed weight");
        if !is_sym(sw) && sw == 0.0 {
            check(r[c].is_nan(), "a layer without weight has no mean");
        } else {
            eq(r[c] * sw, s, "collapsed mean");
        }
    }
    cover("done");
}

/// grids of many cells, some of them symbolic
fn c06_many() {
    let n = [[9, 7, 8], [1, 20, 3], [13, 2, 11]][choose("shape", 3)];
    let mut g = any_grid(n, flag("cyl"));
    let late = |i: usize, j: usize, k: usize| i + 1 == n[0] && j + 1 == n[1] && k + 2 >= n[2];
    let d = Array3::from_shape_fn(n, |(i, j, k)| {
        if late(i, j, k) {
            real(&format!("d{i}{j}{k}"), -8, 8)
        } else if (i + 2 * j + 3 * k) % 19 == 7 {
            NAN
        } else {
            ((5 * i + 3 * j + 2 * k) % 13) as f64 - 4.0
        }
    });
    let w = Array3::from_shape_fn(n, |(i, j, k)| {
        if late(i, j, k) {
            real(&format!("w{i}{j}{k}"), 1, 8)
        } else if (2 * i + 3 * j + k) % 17 == 5 {
            -0.5
        } else {
            ((i + j * 2 + k * 5) % 7) as f64
        }
    });
    g.set_data(d.clone());
    g.set_weights(w.clone());
    let (a1, a2) = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][choose("axes", 6)];
    let prod = &d.mapv(nz) * &w;
    // the second axis counts in the collapsed array
    let second = if a2 > a1 { a2 - 1 } else { a2 };
    let (s1, w1) = (prod.sum_axis(Axis(a1)), w.sum_axis(Axis(a1)));
    let (r, rw) = (g.collapse(a1), g.collapse_weight(a1));
    check(r.shape() == s1.shape() && rw.shape() == s1.shape(), "shape");
    for (i, x) in s1.indexed_iter() {
        eq(rw[i], w1[i], "collapsed weight");
        if is_sym(w1[i]) || w1[i] != 0.0 {
            eq(r[i] * w1[i], *x, "collapsed mean");
        }
    }
    let (s2, w2) = (s1.sum_axis(Axis(second)), w1.sum_axis(Axis(second)));
    let (r, rw) = (g.collapse_two(a1, a2), g.collapse_two_weight(a1, a2));
    check(r.len() == s2.len() && rw.len() == s2.len(), "length");
    for (i, x) in s2.indexed_iter() {
        eq(rw[i], w2[i], "collapsed weight");
        if is_sym(w2[i]) || w2[i] != 0.0 {
            eq(r[i] * w2[i], *x, "collapsed mean");
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- slices
fn plane(d: &Array3<f64>, axis: usize, i: usize) -> Array2<f64> {
    d.index_axis(Axis(axis), i).to_owned()
}
fn same2(a: &Array2<f64>, b: &Array2<f64>, msg: &str) {
    check(a.shape() == b.shape(), &format!("{msg}: shape"));
    if a.shape() == b.shape() {
        for (x, y) in a.iter().zip(b.iter()) {
            eq(*x, *y, msg);
        }
    }
}
/// data that tells its own index
fn coded(g: &mut dyn GridFunctions3D) -> Array3<f64> {
    let n = *g.get_cells();
    let d = Array3::from_shape_fn(n, |(i, j, k)| (100 * i + 10 * j + k) as f64);
    g.set_data(d.clone());
    d
}
fn c07_cart() {
    let n = [[4, 2, 3], [1, 3, 5]][choose("shape", 2)];
    let lo = real("lo", -8, 8);
    let axis = choose("axis", 3);
    let w = [4.0, 6.0, 12.0];
    let mut lim = [[-1.0, 3.0], [0.0, 6.0], [-6.0, 6.0]];
    lim[axis] = [lo, lo + w[axis]];
    let mut g = CartesianGrid3D::new(n, Dim::ThreeD(lim));
    let d = coded(&mut g);
    let p = real("p", -8, 24);
    assume_le(lo, p);
    assume_le(p, lo + w[axis]);
    let s = g.slice(axis, p);
    // which plane is it
    let i = (0..n[axis]).find(|i| plane(&d, axis, *i) == s);
    match i {
        None => check(false, "a slice is a plane of the grid"),
        Some(i) => {
            let cw = w[axis] / n[axis] as f64;
            le(lo + cw * i as f64, p, "slice starts at or before the coordinate");
            le(p, lo + cw * (i + 1) as f64, "slice ends at or after the coordinate");
        }
    }
    let i = choose("idx", n[axis]);
    same2(&g.slice_idx(axis, i), &plane(&d, axis, i), "slice_idx");
    cover("done");
}
fn c07_cyl() {
    let cyl = Cyl { n: [[3, 4, 2], [2, 3, 5]][choose("shape", 2)], c: [1.0, -2.0], r: 2.0, z: [-1.0, 3.0] };
    let mut g = cyl.grid();
    let d = coded(&mut g);
    let axis = choose("axis", 3);
    let p = match axis {
        0 => real("p", 0, 2),
        1 => real("t", -4, 4) * (PI / 4.0),
        _ => real("p", -1, 3),
    };
    let s = g.slice(axis, p);
    match (0..cyl.n[axis]).find(|i| plane(&d, axis, *i) == s) {
        None => check(false, "a slice is a plane of the grid"),
        Some(i) => {
            let (lo, hi, x) = match axis {
                0 => (4.0 * i as f64 / cyl.n[0] as f64, 4.0 * (i + 1) as f64 / cyl.n[0] as f64, p * p),
                1 => {
                    let w = 2.0 * PI / cyl.n[1] as f64;
                    (-PI + w * i as f64, -PI + w * (i + 1) as f64, p)
                }
                _ => {
                    let w = 4.0 / cyl.n[2] as f64;
                    (-1.0 + w * i as f64, -1.0 + w * (i + 1) as f64, p)
                }
            };
            le(lo, x, "slice starts at or before the coordinate");
            le(x, hi, "slice ends at or after the coordinate");
        }
    }
    let i = choose("idx", cyl.n[axis]);
    same2(&g.slice_idx(axis, i), &plane(&d, axis, i), "slice_idx");
    cover("done");
}

/// the rim belongs to the last ring, edges between rings to one of them
fn c07_rim() {
    let nr = 1 + choose("rings", 60);
    let r = [2.0, 0.75, 5.5, 0.1][choose("radius", 4)];
    let mut g = Cyl { n: [nr, 3, 2], c: [0.0, 0.0], r, z: [-1.0, 3.0] }.grid();
    let d = coded(&mut g);
    same2(&g.slice(0, r), &plane(&d, 0, nr - 1), "slice at the rim");
    same2(&g.slice(0, 0.0), &plane(&d, 0, 0), "slice at the axis");
    same2(&g.slice(1, PI), &plane(&d, 1, 2), "slice at the last angle");
    same2(&g.slice(2, 3.0), &plane(&d, 2, 1), "slice at the top");
    cover("done");
}
/// many planes
fn c07_many() {
    let cylg = flag("cyl");
    let shape = choose("shape", 6);
    let n = [[29, 3, 2], [2, 17, 3], [3, 2, 31], [300, 1, 2], [2, 300, 1], [1, 2, 300]][shape];
    let axis = if shape < 3 { choose("axis", 3) } else { shape - 3 };
    let q = if shape < 3 { var("q", 0, 1024, 10) } else { var("q", 935, 955, 10) };
    let (mut g, lim): (Box<dyn GridFunctions3D>, [[f64; 2]; 3]) = if cylg {
        (Box::new(Cyl { n, c: [1.0, -2.0], r: 2.0, z: [-7.0, -3.0] }.grid()), [[0.0, 2.0], [-PI, PI], [-7.0, -3.0]])
    } else {
        let l = [[100.0, 104.0], [-3.0, -2.5], [-6.0, 6.0]];
        (Box::new(CartesianGrid3D::new(n, Dim::ThreeD(l))), l)
    };
    let d = coded(g.as_mut());
    let w = lim[axis][1] - lim[axis][0];
    let p = lim[axis][0] + w * q;
    let s = g.slice(axis, p);
    match (0..n[axis]).find(|i| plane(&d, axis, *i) == s) {
        None => check(false, "a slice is a plane of the grid"),
        Some(i) => {
            let x = if cylg && axis == 0 { q * q } else { q };
            le(i as f64 / n[axis] as f64, x, "slice starts at or before the coordinate");
            le(x, (i + 1) as f64 / n[axis] as f64, "slice ends at or after the coordinate");
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- outliers
fn c08_modes() {
    let n = [2, 1, 2];
    let mut g = any_grid(n, flag("cyl"));
    let (d, w) = sym_fill(g.as_mut(), -8);
    let t = real("t", -8, 8);
    let mode = choose("mode", 2);
    g.outlier_removal(t, mode);
    for (i, x) in d.indexed_iter() {
        let want = if *x > t {
            cover("outlier");
            if mode == 0 {
                0.0
            } else {
                t
            }
        } else {
            *x
        };
        eq(g.get_data()[i], want, "value after removal");
        eq(g.get_weights()[i], w[i], "weight after removal");
    }
}
fn c08_mean() {
    let n = [[3, 3, 3], [2, 1, 3], [1, 1, 2], [2, 2, 2], [4, 2, 1]][choose("shape", 5)];
    let cyl = flag("cyl");
    let mut g = any_grid(n, cyl);
    // the outlier(s): one cell anywhere, optionally a neighbour; all others are at or below
    let total = n[0] * n[1] * n[2];
    let o = choose("cell", total);
    let o2 = choose("second", 3);
    let idx = |q: usize| [q / (n[1] * n[2]), (q / n[2]) % n[1], q % n[2]];
    let mut out = vec![idx(o)];
    if o2 == 1 {
        out.push(idx((o + 1) % total));
    } else if o2 == 2 {
        out.push(idx(total - 1 - o));
    }
    let t = 2.0;
    let d = Array3::from_shape_fn(n, |(i, j, k)| {
        if out.contains(&[i, j, k]) {
            10.0 + real(&format!("d{i}{j}{k}"), 0, 8)
        } else {
            real(&format!("d{i}{j}{k}"), -8, 2)
        }
    });
    let w = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("w{i}{j}{k}"), 0, 8));
    g.set_data(d.clone());
    g.set_weights(w.clone());
    g.outlier_removal(t, 2);
    for (i, x) in d.indexed_iter() {
        let i = [i.0, i.1, i.2];
        if !out.contains(&i) {
            eq(g.get_data()[i], *x, "a value that is no outlier changed");
            eq(g.get_weights()[i], w[i], "weight of a value that is no outlier changed");
            continue;
        }
        let (mut s, mut sw, mut c) = (0.0, 0.0, 0.0);
        for (j, y) in d.indexed_iter() {
            let j = [j.0, j.1, j.2];
            let near = (0..3).all(|k| (j[k] as i64 - i[k] as i64).abs() <= 1) && j != i;
            if near && (cyl || !out.contains(&j)) {
                s = s + y;
                sw = sw + w[j];
                c += 1.0;
            }
        }
        if c > 0.0 {
            cover("mean");
            eq(g.get_data()[i], s / c, "mean of the surrounding cells");
            eq(g.get_weights()[i], sw / c, "mean weight of the surrounding cells");
        }
    }
}
/// many cells, undefined values among them
/// every component of a vector grid
fn c08_vector() {
    let n = [3, 2, 2];
    let cyl = flag("cyl");
    let mut v = VectorGrid::new(any_grid(n, cyl));
    let mode = choose("mode", 3);
    let mut one: Vec<Box<dyn GridFunctions3D>> = vec![];
    for c in 0..3 {
        // at most one value of each component may be above the threshold
        let d = Array3::from_shape_fn(n, |(i, j, k)| if i == c && j + k == 1 && j == 0 { real(&format!("d{c}"), -8, 16) } else { -((c + i + 2 * j + 3 * k) as f64) });
        let w = Array3::from_shape_fn(n, |(i, j, k)| ((c + i * 5 + j * 3 + k) % 4) as f64);
        v.data[c].set_data(d);
        v.data[c].set_weights(w);
        one.push(v.data[c].clone());
    }
    let t = real("t", 1, 4);
    v.outlier_removal(t, mode);
    for c in 0..3 {
        one[c].outlier_removal(t, mode);
        same(v.data[c].as_ref(), one[c].get_data(), one[c].get_weights(), "component of a vector grid");
    }
    cover("done");
}
fn c08_many() {
    let n = [[7, 6, 9], [1, 23, 2]][choose("shape", 2)];
    let cyl = flag("cyl");
    let mut g = any_grid(n, cyl);
    let t = real("t", 1, 4);
    let mode = choose("mode", 3);
    let at = [[n[0] - 1, n[1] - 1, n[2] - 1], [n[0] / 2, n[1] / 2, n[2] / 2], [0, n[1] - 2, 0]][choose("at", 3)];
    let x = real("x", -8, 16);
    // all others are far from the threshold
    let d = Array3::from_shape_fn(n, |(i, j, k)| {
        if [i, j, k] == at {
            x
        } else if mode != 2 && (i + j + k) % 5 == 1 {
            NAN
        } else if (3 * i + 5 * j + k) % 13 == 4 {
            9.0 + i as f64
        } else {
            -((i + 2 * j + 3 * k) as f64)
        }
    });
    let w = Array3::from_shape_fn(n, |(i, j, k)| ((i * 5 + j * 3 + k) % 4) as f64);
    g.set_data(d.clone());
    g.set_weights(w.clone());
    g.outlier_removal(t, mode);
    for (i, v) in d.indexed_iter() {
        let i = [i.0, i.1, i.2];
        let (mut want, mut ww) = (*v, w[i]);
        if *v > t {
            match mode {
                0 => want = 0.0,
                1 => want = t,
                _ => {
                    let (mut s, mut sw, mut c) = (0.0, 0.0, 0.0);
                    for (j, y) in d.indexed_iter() {
                        let j = [j.0, j.1, j.2];
                        let near = (0..3).all(|k| (j[k] as i64 - i[k] as i64).abs() <= 1) && j != i;
                        if near && (cyl || !(*y > t)) {
                            s = s + y;
                            sw = sw + w[j];
                            c += 1.0;
                        }
                    }
                    if c == 0.0 {
                        continue;
                    }
                    want = s / c;
                    ww = sw / c;
                }
            }
        }
        eq(g.get_data()[i], want, "value after removal");
        eq(g.get_weights()[i], ww, "weight after removal");
    }
    cover(if x > t { "outlier" } else { "kept" });
}
