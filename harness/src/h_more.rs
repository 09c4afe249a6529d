//! C09 template grids, C11 selector, C12 time lookup, C21/C22 circulation, C23 extraction,
//! C24 Lacey index, C25 concentration, C26 displacement, C27 array helpers.
use crate::h_fields::later;
use crate::scene::*;
use crate::sym::*;
use crate::world::*;
use crate::Entry;
use ndarray::prelude::*;
use upppp_rust::datamanager::{DataManager, GlobalStats, Manager};
use upppp_rust::grid::{GridFunctions3D, VectorGrid};
use upppp_rust::utilities::{maths, nan_mean, nan_std};
use upppp_rust::{ParticleSelector, Selector};

pub const ALL: &[Entry] = &[
    ("c09_fields", c09_fields),
    ("c09_scalars", c09_scalars),
    ("c09_zeros", c09_zeros),
    ("c11_one", c11_one),
    ("c11_all", c11_all),
    ("c11_large", c11_large),
    ("c11_time", c11_time),
    ("c11_default", c11_default),
    ("c11_many", c11_many),
    ("c11_exact", c11_exact),
    ("c12_lookup", c12_lookup),
    ("c12_nan", c12_nan),
    ("c12_fine", c12_fine),
    ("c23_odd", c23_odd),
    ("c27_odd", c27_odd),
    ("c11_ids", c11_ids),
    ("c12_many", c12_many),
    ("c21_one", c21_one),
    ("c21_two", c21_two),
    ("c21_select", c21_select),
    ("c21_appear", c21_appear),
    ("c21_window", c21_window),
    ("c21_extent", c21_extent),
    ("c21_long", c21_long),
    ("c21_odd", c21_odd),
    ("c22_odd", c22_odd),
    ("c21_shift", c21_shift),
    ("c22_shift", c22_shift),
    ("c22_extent", c22_extent),
    ("c22_one", c22_one),
    ("c22_two", c22_two),
    ("c22_select", c22_select),
    ("c22_appear", c22_appear),
    ("c22_window", c22_window),
    ("c22_long", c22_long),
    ("c23_rows", c23_rows),
    ("c23_bounds", c23_bounds),
    ("c23_long", c23_long),
    ("c24_index", c24_index),
    ("c24_place", c24_place),
    ("c24_steps", c24_steps),
    ("c24_select", c24_select),
    ("c24_window", c24_window),
    ("c24_gaps", c24_gaps),
    ("c24_broad", c24_broad),
    ("c24_far", c24_far),
    ("c24_corner", c24_corner),
    ("c24_mixed", c24_mixed),
    ("c24_long", c24_long),
    ("c25_types", c25_types),
    ("c25_place", c25_place),
    ("c25_select", c25_select),
    ("c25_window", c25_window),
    ("c25_gaps", c25_gaps),
    ("c25_cyl", c25_cyl),
    ("c25_swap", c25_swap),
    ("c25_broad", c25_broad),
    ("c25_far", c25_far),
    ("c25_single", c25_single),
    ("c25_corner", c25_corner),
    ("c25_mixed", c25_mixed),
    ("c25_long", c25_long),
    ("c26_moves", c26_moves),
    ("c26_place", c26_place),
    ("c26_select", c26_select),
    ("c26_window", c26_window),
    ("c26_gaps", c26_gaps),
    ("c26_lag", c26_lag),
    ("c26_list", c26_list),
    ("c26_cyl", c26_cyl),
    ("c26_broad", c26_broad),
    ("c26_far", c26_far),
    ("c26_shift", c26_shift),
    ("c26_single", c26_single),
    ("c26_corner", c26_corner),
    ("c26_mixed", c26_mixed),
    ("c26_list_long", c26_list_long),
    ("c26_long", c26_long),
    ("c27_nan", c27_nan),
    ("c27_minmax", c27_minmax),
    ("c27_flatten", c27_flatten),
    ("c27_mesh", c27_mesh),
    ("c27_many", c27_many),
];

type G = Box<dyn GridFunctions3D>;
fn o(steps: usize, parts: usize, symvel: bool) -> Opt {
    Opt { steps, parts, symvel }
}
fn t(steps: usize) -> usize {
    steps + thorough() as usize
}

// ---------------------------------------------------------------- template grids
fn same_grid(a: &dyn GridFunctions3D, b: &dyn GridFunctions3D, msg: &str) {
    expect(a, b.get_data(), b.get_weights(), msg);
}
fn all_fields<T: Manager>(m: &mut T, s: &ParticleSelector, which: usize, g: G) -> Vec<G> {
    match which {
        0 => vec![m.velocityfield(g, s, "absolute", -1.0, 99.0)],
        1 => m.vectorfield(g, s).data.to_vec(),
        2 => vec![m.numberfield(g, s)],
        3 => vec![m.occupancyfield(g, s, 0.0)],
        4 => vec![m.granular_temperature_field(g, s, "xyz")],
        5 => vec![m.dispersion(g, s, 0.5).0],
        6 => vec![m.concentration_field(g, s, 1, 2)],
        _ => vec![m.msd_field(g, s, 0.5)],
    }
}
fn all_scalars<T: Manager>(m: &mut T, s: &ParticleSelector, which: usize, g: G) -> Vec<f64> {
    match which {
        0 => vec![m.dispersion(g, s, 0.5).1],
        1 => m.lacey_mixing(g, s, 1, 2, 0).1.to_vec(),
        2 => m.msd(g, s, 0.0, 0.5, 2).0.to_vec(),
        3 => m.histogram(g, s, "velocity", 0.0, 4).0.to_vec(),
        _ => vec![m.homogenity_index(g, s, 0.0)],
    }
}
/// a dataset, a fresh grid, and a grid with symbolic earlier contents
fn c09_scene() -> (Mem, ParticleSelector, G, G, Array3<f64>, Array3<f64>) {
    let mut sc = if flag("cyl") { cylinder(&o(2, 2, false)) } else { crowd(&o(2, 2, false)) };
    let mut st = sc.mem.steps.clone();
    for s in st.iter_mut() {
        for (i, p) in s.p.iter_mut().enumerate() {
            p.ptype = (i + 1) as f64;
        }
    }
    sc.mem = Mem::new(st);
    let fresh = sc.grid.new_zeros();
    let mut used = fresh.clone();
    let n = sc.cells;
    let d = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("d{i}{j}{k}"), -8, 8));
    let w = Array3::from_shape_fn(n, |(i, j, k)| real(&format!("w{i}{j}{k}"), 0, 8));
    used.set_data(d.clone());
    used.set_weights(w.clone());
    (sc.mem, sc.sel, fresh, used, d, w)
}
fn c09_fields() {
    let (mut m, sel, fresh, used, d, w) = c09_scene();
    let which = choose("field", 8);
    let a = all_fields(&mut m, &sel, which, fresh);
    let b = all_fields(&mut m, &sel, which, used.clone());
    check(a.len() == b.len(), "number of grids");
    for (x, y) in a.iter().zip(b.iter()) {
        same_grid(y.as_ref(), x.as_ref(), &format!("field {which} depends on the contents of the grid"));
        check(*x.get_cells() == *used.get_cells() && x.is_cylindrical() == used.is_cylindrical(), "cells of the field");
        for k in 0..3 {
            for e in 0..2 {
                eq(x.get_limits()[k][e], used.get_limits()[k][e], "limits of the field");
            }
        }
    }
    expect(used.as_ref(), &d, &w, "the passed grid");
    cover("done");
}
fn c09_scalars() {
    let (mut m, sel, fresh, used, _, _) = c09_scene();
    let which = choose("scalar", 5);
    let a = all_scalars(&mut m, &sel, which, fresh);
    let b = all_scalars(&mut m, &sel, which, used);
    check(a.len() == b.len(), "number of values");
    for (x, y) in a.iter().zip(b.iter()) {
        eq(*x, *y, &format!("result {which} depends on the contents of the grid"));
    }
    cover("done");
}
fn c09_zeros() {
    let (_, _, fresh, used, d, w) = c09_scene();
    let zero = Array3::<f64>::zeros(d.raw_dim());
    let z = if flag("vector") {
        let v = VectorGrid::new(used.clone());
        let z = v.new_zeros();
        for k in 0..3 {
            expect(v.data[k].as_ref(), &d, &w, "vector grid keeps its contents");
            let zz = z.as_any().downcast_ref::<VectorGrid>().unwrap();
            expect(zz.data[k].as_ref(), &zero, &zero, "emptied vector grid");
        }
        z
    } else {
        used.new_zeros()
    };
    expect(z.as_ref(), &zero, &zero, "emptied copy");
    expect(used.as_ref(), &d, &w, "the original");
    check(*z.get_cells() == *fresh.get_cells() && z.is_cylindrical() == fresh.is_cylindrical(), "cells");
    for k in 0..3 {
        for e in 0..2 {
            eq(z.get_limits()[k][e], used.get_limits()[k][e], "limits");
        }
    }
    for (a, b) in [
        (z.get_xpositions(), used.get_xpositions()),
        (z.get_ypositions(), used.get_ypositions()),
        (z.get_zpositions(), used.get_zpositions()),
    ] {
        check(a.len() == b.len(), "positions");
        for (x, y) in a.iter().zip(b.iter()) {
            eq(*x, *y, "positions");
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- selector
fn crit(name: &str, len: usize) -> Vec<f64> {
    (0..len).map(|i| real(&format!("{name}{i}"), -2, 6)).collect()
}
fn accepts(c: &[f64], x: f64) -> bool {
    if c[0] == -1.0 {
        return true;
    }
    match c.len() {
        1 => x == c[0],
        2 => c[0] <= x && x <= c[1],
        _ => c.iter().any(|v| *v == x),
    }
}
/// one criterion free, the others at values that accept
fn c11_one() {
    let which = choose("criterion", 3);
    let len = 1 + choose("len", if thorough() { 4 } else { 3 });
    let c = crit("c", len);
    let v = if flag("nan") { NAN } else { real("v", -2, 6) };
    let mut cs = vec![vec![-1.0], vec![2.0, 3.0], vec![-1.0, 5.0, 7.0]];
    let mut vs = vec![9.0, 2.5, 4.0];
    cs.rotate_left(choose("others", 3));
    // values that the other criteria accept
    for i in 0..3 {
        if cs[i][0] == 2.0 {
            vs[i] = 2.5;
        }
    }
    cs[which] = c.clone();
    vs[which] = v;
    let s = ParticleSelector::new((0.0, 1.0), cs[0].clone(), cs[1].clone(), cs[2].clone(), vec![0]);
    let want = accepts(&c, v);
    check(s.is_valid(vs[0], vs[1], vs[2], 5) == want, "acceptance by one criterion");
    cover(if want { "accepted" } else { "rejected" });
}
/// three ranges and an identifier at once
fn c11_all() {
    let cs: Vec<Vec<f64>> = ["r", "c", "d"].iter().map(|n| crit(n, 2)).collect();
    let v = [real("radius", -2, 6), real("cloud", -2, 6), real("density", -2, 6)];
    let ids = [vec![0], vec![3], vec![2, 4]][choose("ids", 3)].clone();
    let id = 2 + choose("id", 4);
    let s = ParticleSelector::new((0.0, 1.0), cs[0].clone(), cs[1].clone(), cs[2].clone(), ids.clone());
    let mut want = true;
    for k in 0..3 {
        want = want && accepts(&cs[k], v[k]);
    }
    want = want && (ids[0] == 0 || if ids.len() == 1 { id == ids[0] } else { id >= ids[0] && id <= ids[1] });
    check(s.is_valid(v[0], v[1], v[2], id) == want, "acceptance by all criteria");
    cover(if want { "accepted" } else { "rejected" });
}
fn c11_ids() {
    let len = 1 + choose("len", 4);
    let ids: Vec<usize> = (0..len).map(|i| choose(&format!("i{i}"), 5)).collect();
    let id = choose("id", 6);
    let s = ParticleSelector::new((0.0, 1.0), vec![-1.0], vec![-1.0], vec![-1.0], ids.clone());
    let want = ids[0] == 0
        || match len {
            1 => id == ids[0],
            2 => id >= ids[0] && id <= ids[1],
            _ => ids.contains(&id),
        };
    check(s.is_valid(real("r", 0, 4), real("c", 0, 4), real("d", 0, 4), id) == want, "acceptance by identifier");
    cover(if want { "accepted" } else { "rejected" });
}
fn c11_time() {
    let (a, b, x) = (real("from", -4, 8), real("to", -4, 8), real("t", -4, 8));
    let mut s = ParticleSelector::new((0.0, 1.0), vec![1.0, 3.0], vec![2.0], vec![-1.0], vec![4]);
    if flag("set") {
        s.set_time(a, b);
    } else {
        s = ParticleSelector::new((a, b), vec![1.0, 3.0], vec![2.0], vec![-1.0], vec![4]);
    }
    check(s.timestep_valid(x) == (a <= x && x <= b), "time window");
    check(!s.timestep_valid(NAN), "an undefined time is accepted");
    // the criteria stay
    let r = real("r", 0, 5);
    check(s.is_valid(r, 2.0, 9.0, 4) == (r >= 1.0 && r <= 3.0), "radius");
    check(!s.is_valid(2.0, 2.5, 9.0, 4) && !s.is_valid(2.0, 2.0, 9.0, 5), "cloud and identifier");
    cover("done");
}
fn c11_default() {
    let s = ParticleSelector::default();
    check(s.is_valid(real("r", -8, 8), real("c", -8, 8), real("d", -8, 8), choose("id", 4)), "the default accepts everything");
    check(s.timestep_valid(real("t", -8, 8)), "the default accepts every time");
    cover("done");
}

/// values that differ in the last digits only
fn c11_exact() {
    let which = choose("criterion", 4);
    let x = if flag("finest") { var("x", -4, 4, 50) } else { var("x", -4, 4, 40) };
    let edge = [1.0, 2.0][choose("edge", 2)];
    let v = edge + x;
    let kind = choose("kind", 3);
    let c = [vec![edge], vec![1.0, 2.0], vec![2.0, 1.0, 3.0]][kind].clone();
    let want = match kind {
        0 | 2 => v == edge,
        _ => v >= 1.0 && v <= 2.0,
    };
    if which == 3 {
        let s = ParticleSelector::new((1.0, 2.0), vec![-1.0], vec![-1.0], vec![-1.0], vec![0]);
        check(s.timestep_valid(v) == (v >= 1.0 && v <= 2.0), "time window");
        cover("time");
        return;
    }
    let mut cs = vec![vec![-1.0]; 3];
    cs[which] = c;
    let mut vs = [7.0; 3];
    vs[which] = v;
    let s = ParticleSelector::new((1.0, 2.0), cs[0].clone(), cs[1].clone(), cs[2].clone(), vec![0]);
    check(s.is_valid(vs[0], vs[1], vs[2], 3) == want, "acceptance of a value next to a bound");
    cover(if want { "accepted" } else { "rejected" });
}
/// every identifier around each of several bounds against values, ranges and lists of large identifiers
fn c11_large() {
    let list = [vec![70000], vec![5, 70000], vec![70000, 1 << 33, 65541], vec![(1 << 33) + 5, 65536, 1 << 40, 4]][choose("list", 4)].clone();
    let near = [4, 65536, 70000, 1usize << 33, 1 << 40][choose("near", 5)];
    let v = near - 4 + choose("id", 12);
    let s = ParticleSelector::new((f64::MIN, f64::MAX), vec![-1.0], vec![-1.0], vec![-1.0], list.clone());
    let want = if list.len() == 2 { v >= 5 && v <= 70000 } else { list.contains(&v) };
    check(s.is_valid(1.0, 2.0, 3.0, v) == want, "acceptance of a large identifier");
    cover(if want { "accepted" } else { "rejected" });
}
/// long lists; the value (or the identifier) is near one of the entries
fn c11_many() {
    let n = [3, 9, 40][choose("n", 3)];
    let at = [0, n / 2, n - 1][choose("at", 3)];
    let which = choose("criterion", 4);
    let x = real("x", -3, 3);
    let list: Vec<f64> = (0..n).map(|i| if i == at { x } else { 10.0 + i as f64 }).collect();
    let v = real("v", -4, 4);
    let mut cs = vec![vec![-1.0]; 3];
    let mut ids = vec![0];
    let mut vs = [0.25, 300.0, -1.0];
    let mut id = 1000;
    let want = if which < 3 {
        // the sentinel as the first value accepts everything
        assume(!(at == 0 && x == -1.0));
        cs[which] = list;
        vs[which] = v;
        v == x
    } else {
        ids = (0..n).map(|i| if i == at { 7 } else { 500 - i }).collect();
        id = [7, 500 - (n - 1), 8, 400][choose("id", 4)];
        ids.contains(&id)
    };
    let s = ParticleSelector::new((0.0, 1.0), cs[0].clone(), cs[1].clone(), cs[2].clone(), ids);
    check(s.is_valid(vs[0], vs[1], vs[2], id) == want, "acceptance by a list");
    cover(if want { "accepted" } else { "rejected" });
}

// ---------------------------------------------------------------- time lookup
fn stats(times: &[f64]) -> GlobalStats {
    let n = times.len();
    GlobalStats::verify_new(
        Array2::zeros((2, 3)), 1, n, if n > 0 { times[0] } else { 0.0 }, if n > 0 { times[n - 1] } else { 0.0 }, 1.0,
        Array2::zeros((3, 3)), Array1::zeros(3), arr1(times),
    )
}
fn c12_lookup() {
    let n = 1 + choose("n", if thorough() { 9 } else { 7 });
    let mut ts: Vec<f64> = vec![];
    for i in 0..n {
        let x = real(&format!("t{i}"), -8, 64);
        if i > 0 {
            assume_lt(ts[i - 1], x);
        }
        ts.push(x);
    }
    let g = stats(&ts);
    let q = real("q", -8, 64);
    let r = g.timestep_at_seconds_closest(q);
    if q < ts[0] {
        cover("before");
        check(r.is_err(), "a time before the first snapshot is accepted");
    } else if q > ts[n - 1] {
        cover("after");
        check(r.is_err(), "a time after the last snapshot is accepted");
    } else {
        cover("between");
        match r {
            Ok(i) => {
                check(i < n, "index in range");
                for j in 0..n {
                    le((ts[i] - q).abs(), (ts[j] - q).abs(), "another snapshot is closer");
                }
            }
            Err(_) => check(false, "a time of the dataset is rejected"),
        }
    }
}
/// requests next to a snapshot, next to the middle of two, and next to the ends
fn c12_fine() {
    let all = flag("all");
    let ts: Vec<f64> = if all { vec![-1.5, 1.0, 2.0, 4.0, 4.5] } else { vec![2.0] };
    let at = [-1.5, -0.25, 1.0, 1.5, 2.0, 3.0, 4.0, 4.25, 4.5];
    let at = if all { at[choose("at", 9)] } else { 2.0 };
    let x = if flag("finest") { var("x", -4, 4, 49) } else { var("x", -4, 4, 20) };
    let q = at + x;
    let n = ts.len();
    let r = stats(&ts).timestep_at_seconds_closest(q);
    if q < ts[0] || q > ts[n - 1] {
        cover("outside");
        check(r.is_err(), "a time outside the dataset is accepted");
        return;
    }
    check(r.is_ok(), "a time of the dataset is rejected");
    let i = r.unwrap_or(0);
    check(i < n, "index in range");
    let d = |j: usize| if q > ts[j] { q - ts[j] } else { ts[j] - q };
    for j in 0..n {
        check(d(i) <= d(j), "another snapshot is closer");
    }
    cover("inside");
}
fn c12_nan() {
    check(stats(&[]).timestep_at_seconds_closest(real("q", -8, 8)).is_err(), "empty dataset");
    cover("done");
}

/// hundreds of snapshots at uneven times; the requested time is anywhere in a part of the dataset
fn c12_many() {
    let n = [255, 300, 513][choose("n", 3)];
    let t0 = [0.0, -100.0, 7.5][choose("origin", 3)];
    let mut ts = vec![t0];
    for i in 1..n {
        ts.push(ts[i - 1] + [0.25, 1.0, 0.125, 3.0][(i * i) % 4]);
    }
    let c = [0, n / 3, n / 2, 250, n - 2][choose("part", 5)];
    let (a, b) = (c.max(2) - 2, (c + 3).min(n - 1));
    let q = ts[a] + (ts[b] - ts[a]) * var("q", -100, 1124, 10);
    let g = stats(&ts);
    let r = g.timestep_at_seconds_closest(q);
    if q < ts[0] || q > ts[n - 1] {
        cover("outside");
        check(r.is_err(), "a time outside the dataset is accepted");
        return;
    }
    cover("between");
    match r {
        Ok(i) => {
            check(i < n, "index in range");
            for j in 0..n {
                if j + 3 >= a && j <= b + 3 || i == j {
                    le((ts[i] - q).abs(), (ts[j] - q).abs(), "another snapshot is closer");
                }
            }
        }
        Err(_) => check(false, "a time of the dataset is rejected"),
    }
}

// ---------------------------------------------------------------- circulation
fn circ<T: Manager>(m: &mut T, s: &ParticleSelector, axis: usize, b: f64) -> Vec<f64> {
    m.circulation_time(s, axis, b)
}
fn circ2<T: Manager>(m: &mut T, s: &ParticleSelector, axis: usize, b: (f64, f64)) -> Vec<(f64, f64)> {
    m.circulation_time_two_boundary(s, axis, b)
}
/// positions of particle p in the steps where it exists, as (time, coordinate)
type Track = Vec<(f64, f64)>;
fn crossings(tr: &Track, b: f64) -> Vec<f64> {
    let mut out = vec![];
    for k in 1..tr.len() {
        if (tr[k].1 >= b) != (tr[k - 1].1 >= b) {
            out.push(tr[k].0);
        }
    }
    out
}
fn times_of(tr: &Track, b: f64) -> Vec<(f64, f64)> {
    crossings(tr, b).chunks(3).filter(|c| c.len() == 3).map(|c| (c[0], c[2])).collect()
}
fn pairs_of(tr: &Track, b: (f64, f64)) -> Vec<(f64, f64)> {
    pairs_from(tr, b, f64::MIN)
}
/// only snapshots from the given time on count as crossings
fn pairs_from(tr: &Track, b: (f64, f64), from: f64) -> Vec<(f64, f64)> {
    let region = |x: f64| if x < b.0 { -1 } else if x >= b.1 { 1 } else { 0 };
    let r: Vec<i32> = tr.iter().map(|x| region(x.1)).collect();
    let mut out = vec![];
    let (mut home, mut clock, mut visited) = (0, 0.0, false);
    for k in 1..tr.len() {
        if r[k] == r[k - 1] || tr[k].0 < from {
            continue;
        }
        if r[k - 1] != 0 {
            if home == 0 {
                home = r[k - 1];
                clock = tr[k].0;
            } else if home == r[k - 1] {
                if visited {
                    out.push((clock, tr[k].0));
                }
                clock = tr[k].0;
                visited = false;
            }
        }
        if home != 0 && r[k] == -home {
            visited = true;
        }
    }
    out
}
/// every expected value is reported, and nothing else (in any order)
fn multiset(got: &[f64], want: &[f64], msg: &str) {
    check(got.len() == want.len(), &format!("{msg}: number of values"));
    let mut used = vec![false; got.len()];
    for w in want {
        match got.iter().enumerate().position(|(i, g)| !used[i] && (*g - *w).abs() < 1e-9) {
            Some(i) => used[i] = true,
            None => check(false, &format!("{msg}: a value is missing")),
        }
    }
}
fn multiset2(got: &[(f64, f64)], want: &[(f64, f64)], msg: &str) {
    check(got.len() == want.len(), &format!("{msg}: number of pairs"));
    let mut used = vec![false; got.len()];
    for w in want {
        match got.iter().enumerate().position(|(i, g)| !used[i] && (g.0 - w.0).abs() < 1e-9 && (g.1 - w.1).abs() < 1e-9) {
            Some(i) => used[i] = true,
            None => check(false, &format!("{msg}: a pair is missing")),
        }
    }
}
const T8: [f64; 9] = [0.5, 1.0, 2.5, 3.0, 5.0, 5.5, 7.25, 9.0, 9.125];
fn tracks(steps: usize, parts: usize, axis: usize) -> (Mem, Vec<Track>) {
    let mut st = vec![];
    let mut tr = vec![vec![]; parts];
    for s in 0..steps {
        let mut ps = vec![];
        for p in 0..parts {
            let x = real(&format!("x{s}{p}"), -8, 8);
            let mut pos = [1.0 - 2.0 * (s % 2) as f64, -0.5 + (s % 3) as f64, 0.25 - (s % 2) as f64];
            pos[axis] = x;
            tr[p].push((T8[s], x));
            ps.push(Particle::new(p + 1, pos, [0.0; 3]));
        }
        st.push(Step { time: T8[s], p: ps });
    }
    (Mem::new(st), tr)
}
fn c21_report(m: &mut Mem, sel: &ParticleSelector, axis: usize, b: f64, tr: &[Track]) {
    let got = circ(m, sel, axis, b);
    let want: Vec<f64> = tr.iter().flat_map(|x| times_of(x, b)).map(|(a, b)| b - a).collect();
    cover(&format!("{} circulations", want.len()));
    multiset(&got, &want, "circulation times");
}
fn c22_report(m: &mut Mem, sel: &ParticleSelector, axis: usize, b: (f64, f64), tr: &[Track]) {
    let got = circ2(m, sel, axis, b);
    let want: Vec<(f64, f64)> = tr.iter().flat_map(|x| pairs_of(x, b)).collect();
    cover(&format!("{} circulations", want.len()));
    multiset2(&got, &want, "circulations");
}
fn c21_one() {
    let axis = choose("axis", 3);
    let (mut m, tr) = tracks(t(7), 1, axis);
    let b = if axis == 0 { real("b", -4, 4) } else { 0.5 };
    c21_report(&mut m, &everyone(), axis, b, &tr);
}
fn c21_two() {
    let (mut m, tr) = tracks(if thorough() { 6 } else { 5 }, 2, 1);
    c21_report(&mut m, &everyone(), 1, 0.5, &tr);
}
fn c22_one() {
    let axis = choose("axis", 3);
    let (mut m, tr) = tracks(t(6), 1, axis);
    let b = if axis == 0 { (real("b0", -4, 0), real("b1", 1, 4)) } else { (-1.5, 1.25) };
    c22_report(&mut m, &everyone(), axis, b, &tr);
}
fn c22_two() {
    let (mut m, tr) = tracks(t(4), 2, 2);
    c22_report(&mut m, &everyone(), 2, (-1.5, 1.25), &tr);
}
/// concrete zigzag of three particles with different attributes
fn zigzag(steps: usize) -> (Mem, Vec<Track>) {
    let z = [[-2.0, 3.0], [3.0, -2.0], [-3.0, 2.0]];
    let mut st = vec![];
    let mut tr = vec![vec![]; 3];
    for s in 0..steps {
        let mut ps = vec![];
        for p in 0..3 {
            let x = if p == 2 && s % 4 >= 2 { z[p][0] } else { z[p][s % 2] };
            tr[p].push((T8[s], x));
            let mut q = Particle::new(p + 1, [0.0, 0.5, x], [0.0; 3]);
            q.radius = 0.5 + p as f64;
            q.cloud = 3.0 - p as f64;
            q.density = 2.0 + 0.75 * p as f64;
            ps.push(q);
        }
        st.push(Step { time: T8[s], p: ps });
    }
    (Mem::new(st), tr)
}
fn pick(tr: &[Track]) -> (ParticleSelector, Vec<Track>) {
    let which = choose("criterion", 4);
    let (lo, hi) = (real("lo", 0, 5), real("hi", 0, 5));
    let mut c = vec![vec![-1.0]; 3];
    let mut ids = vec![0];
    if which < 3 {
        c[which] = vec![lo, hi];
    } else {
        ids = vec![1 + choose("id", 3)];
    }
    let ok = |p: usize| {
        let v = [0.5 + p as f64, 3.0 - p as f64, 2.0 + 0.75 * p as f64];
        if which < 3 {
            v[which] >= lo && v[which] <= hi
        } else {
            p + 1 == ids[0]
        }
    };
    let out = (0..3).filter(|p| ok(*p)).map(|p| tr[p].clone()).collect();
    (ParticleSelector::new((f64::MIN, f64::MAX), c[0].clone(), c[1].clone(), c[2].clone(), ids.clone()), out)
}
fn c21_select() {
    let (mut m, tr) = zigzag(8);
    let (sel, tr) = pick(&tr);
    c21_report(&mut m, &sel, 2, real("b", -1, 1), &tr);
}
/// boundaries anywhere in and around the extent of the dataset
fn extent(axis: usize) -> (Mem, [f64; 2]) {
    let (mut m, _) = zigzag(3);
    m.lo = [-9.0, -8.5, -10.0];
    m.hi = [8.0, 9.5, 10.0];
    let lim = [m.lo[axis], m.hi[axis]];
    (m, lim)
}
fn c21_extent() {
    let axis = choose("axis", 3);
    let (mut m, lim) = extent(axis);
    let b = real("b", -16, 16);
    let r = catches(|| circ(&mut m, &everyone(), axis, b));
    if b < lim[0] || b > lim[1] {
        check(r.is_err(), "a boundary outside the dataset is accepted");
        cover("outside");
    } else {
        check(r.is_ok(), "a boundary inside the dataset is refused");
        cover("inside");
    }
}
fn c22_extent() {
    let axis = choose("axis", 3);
    let (mut m, lim) = extent(axis);
    let b = if flag("which") { (real("b", -16, 8), 7.5) } else { (-8.0, real("b", -7, 16)) };
    let r = catches(|| circ2(&mut m, &everyone(), axis, b));
    if b.0 < lim[0] || b.1 > lim[1] || b.0 > lim[1] {
        check(r.is_err(), "a boundary outside the dataset is accepted");
        cover("outside");
    } else {
        check(r.is_ok(), "a boundary inside the dataset is refused");
        cover("inside");
    }
}
fn c22_select() {
    let (mut m, tr) = zigzag(8);
    let (sel, tr) = pick(&tr);
    c22_report(&mut m, &sel, 2, (-0.5, 0.5), &tr);
}
/// the first particle is there from the start, the second appears later
fn appear() -> (Mem, Vec<Track>) {
    let (m, mut tr) = tracks(5, 2, 0);
    let first = choose("first", 4);
    let mut st = m.steps.clone();
    for s in 0..first {
        st[s].p.truncate(1);
    }
    tr[1].drain(0..first);
    (Mem::new(st), tr)
}
fn c21_appear() {
    let (mut m, tr) = appear();
    c21_report(&mut m, &everyone(), 0, 0.0, &tr);
}
fn c22_appear() {
    let (m, tr) = appear();
    let mut st = m.steps.clone();
    // the first one moves on a fixed course
    let mut tr = tr;
    for s in 0..5 {
        let x = [-2.0, 2.0, -2.0, 0.0, 2.0][s];
        st[s].p[0].pos[0] = x;
        tr[0][s].1 = x;
    }
    c22_report(&mut Mem::new(st), &everyone(), 0, (-1.0, 1.0), &tr);
}
/// a window with symbolic ends: only crossings found in snapshots of the window count
fn c21_window() {
    let (mut m, mut tr) = zigzag(9);
    let mut sel = everyone();
    sel.time = (real("from", 0, 8), real("to", 1, 10));
    for x in tr.iter_mut() {
        x.retain(|e| e.0 <= sel.time.1);
    }
    let got = circ(&mut m, &sel, 2, 0.0);
    let want: Vec<f64> = tr
        .iter()
        .flat_map(|x| {
            let c: Vec<f64> = crossings(x, 0.0).into_iter().filter(|t| *t >= sel.time.0).collect();
            c.chunks(3).filter(|c| c.len() == 3).map(|c| c[2] - c[0]).collect::<Vec<_>>()
        })
        .collect();
    cover(&format!("{} circulations", want.len()));
    multiset(&got, &want, "circulation times");
}
fn c22_window() {
    let (mut m, mut tr) = zigzag(9);
    let mut sel = everyone();
    sel.time = (real("from", 0, 8), real("to", 1, 10));
    for x in tr.iter_mut() {
        x.retain(|e| e.0 <= sel.time.1);
    }
    let got = circ2(&mut m, &sel, 2, (-1.0, 1.0));
    let want: Vec<(f64, f64)> = tr.iter().flat_map(|x| pairs_from(x, (-1.0, 1.0), sel.time.0)).collect();
    cover(&format!("{} circulations", want.len()));
    multiset2(&got, &want, "circulations");
}

/// many snapshots or many particles; two late coordinates are symbolic
fn long_tracks() -> (Mem, Vec<Track>, usize) {
    let (ns, np) = [(70, 2), (6, 262), (261, 1)][choose("shape", 3)];
    let axis = choose("axis", 3);
    let mut st = vec![];
    let mut tr = vec![vec![]; np];
    for s in 0..ns {
        let time = 0.25 * s as f64 - 3.0;
        let mut ps = vec![];
        for p in 0..np {
            let x = if s + 2 >= ns && p + 1 == np {
                real(&format!("x{s}"), -8, 8)
            } else {
                ((s * 7 + p * 3 + s / 9) % 10) as f64 - 4.5
            };
            tr[p].push((time, x));
            let mut pos = [0.5, -0.25, 0.75];
            pos[axis] = x;
            ps.push(Particle::new(p + 1, pos, [0.0; 3]));
        }
        st.push(Step { time, p: ps });
    }
    (Mem::new(st), tr, axis)
}
/// unusual identifiers, late or negative times, a snapshot without particles, and windows that end exactly at snapshots:
/// the moves (time, from, to) of every particle that count
fn odd_tracks() -> (Mem, Vec<Vec<(f64, f64, f64)>>, ParticleSelector, usize) {
    let axis = choose("axis", 3);
    let start = [70000.1, -70000.3, -3.1, 1e9 + 0.3][choose("start", 4)];
    let gap = choose("gap", 3);
    let ids = [0usize, 65537 + 3, 1, 70000];
    let time: Vec<f64> = (0..10).map(|s| start + 0.7 * s as f64).collect();
    let empty = [99, 1, 5][gap];
    let mut sel = everyone();
    let select = choose("select", 4);
    match select {
        0 => (),
        1 => sel.time = (time[2], time[9]),
        2 => sel.time = (time[1], time[7]),
        _ => sel = ParticleSelector::new(sel.time, vec![-1.0], vec![-1.0], vec![-1.0], vec![65540, 70000]),
    }
    let z = [[-2.0, 3.0], [3.0, -2.0], [-3.0, 2.0], [4.0, -1.5]];
    let at = |s: usize, p: usize| z[p][(s + s / 4) % 2];
    let mut st = vec![];
    let mut tr = vec![vec![]; 4];
    let mut last: Vec<Option<f64>> = vec![None; 4];
    for s in 0..10 {
        let mut ps = vec![];
        for p in 0..4 {
            if s == empty {
                last[p] = None;
                continue;
            }
            let x = if (s == 3 || s == 6) && p == 3 { real(&format!("x{s}"), -8, 8) } else { at(s, p) };
            if let Some(l) = last[p] {
                if time[s] >= sel.time.0 && time[s] <= sel.time.1 && (select != 3 || p == 1 || p == 3) {
                    tr[p].push((time[s], l, x));
                }
            }
            last[p] = Some(x);
            let mut pos = [0.5, -0.25, 0.75];
            pos[axis] = x;
            ps.push(Particle::new(ids[p], pos, [0.0; 3]));
        }
        st.push(Step { time: time[s], p: ps });
    }
    (Mem::new(st), tr, sel, axis)
}
/// particles that come and go, so that the others change their rows; also reversed rows
fn shift_tracks() -> (Mem, Vec<Vec<(f64, f64, f64)>>, ParticleSelector, usize) {
    let ids = [3usize, 5, 8, 70001];
    let gone = choose("gone", 3);
    let when = choose("when", 5);
    let reversed = flag("reversed");
    let one = flag("one");
    let z = [[-2.0, 3.0], [3.0, -2.0], [-3.0, 2.0], [4.0, -1.5]];
    let mut st = vec![];
    let mut tr = vec![vec![]; 4];
    let mut last: Vec<Option<f64>> = vec![None; 4];
    for s in 0..10 {
        let time = s as f64 * 0.75 - 1.0;
        let mut ps = vec![];
        for p in 0..4 {
            let absent = match when {
                0 => s < 2,
                1 => s == 3,
                2 => s > 5,
                3 => s % 4 == 1,
                _ => false,
            };
            if p == gone && absent || p == 1 && gone == 0 && s == 7 {
                last[p] = None;
                continue;
            }
            let x = if (s == 4 || s == 7) && p == 3 { real(&format!("x{s}"), -8, 8) } else { z[p][(s + s / 4) % 2] };
            if let (Some(l), true) = (last[p], !one || p == 3) {
                tr[p].push((time, l, x));
            }
            last[p] = Some(x);
            ps.push(Particle::new(ids[p], [0.5, x, -0.25], [0.0; 3]));
        }
        if reversed && s % 3 == 1 {
            ps.reverse();
        }
        st.push(Step { time, p: ps });
    }
    let mut sel = everyone();
    if one {
        sel = ParticleSelector::new(sel.time, vec![-1.0], vec![-1.0], vec![-1.0], vec![70001]);
    }
    (Mem::new(st), tr, sel, 1)
}
fn c21_shift() {
    c21_moves(shift_tracks())
}
fn c22_shift() {
    c22_moves(shift_tracks())
}
fn c21_odd() {
    c21_moves(odd_tracks())
}
fn c22_odd() {
    c22_moves(odd_tracks())
}
fn c21_moves(o: (Mem, Vec<Vec<(f64, f64, f64)>>, ParticleSelector, usize)) {
    let (mut m, tr, sel, axis) = o;
    let got = circ(&mut m, &sel, axis, 0.25);
    let mut want = vec![];
    for x in &tr {
        let c: Vec<f64> = x.iter().filter(|(_, a, b)| (*a >= 0.25) != (*b >= 0.25)).map(|e| e.0).collect();
        want.extend(c.chunks(3).filter(|c| c.len() == 3).map(|c| c[2] - c[0]));
    }
    cover(&format!("{} circulations", want.len()));
    multiset(&got, &want, "circulation times");
}
fn c22_moves(o: (Mem, Vec<Vec<(f64, f64, f64)>>, ParticleSelector, usize)) {
    let (mut m, tr, sel, axis) = o;
    let b = (-1.0, 1.75);
    let got = circ2(&mut m, &sel, axis, b);
    let region = |x: f64| if x < b.0 { -1 } else if x >= b.1 { 1 } else { 0 };
    let mut want = vec![];
    for x in &tr {
        let (mut home, mut clock, mut visited) = (0, 0.0, false);
        for (time, from, to) in x {
            let (f, g) = (region(*from), region(*to));
            if f != g && f != 0 && (home == 0 || home == f) {
                if visited {
                    want.push((clock, *time));
                }
                home = f;
                clock = *time;
                visited = false;
            }
            if home != 0 && f != g && g == -home {
                visited = true;
            }
        }
    }
    cover(&format!("{} circulations", want.len()));
    multiset2(&got, &want, "circulations");
}
fn c21_long() {
    let (mut m, tr, axis) = long_tracks();
    c21_report(&mut m, &everyone(), axis, 0.25, &tr);
}
fn c22_long() {
    let (mut m, tr, axis) = long_tracks();
    c22_report(&mut m, &everyone(), axis, (-1.0, 1.75), &tr);
}

// ---------------------------------------------------------------- extraction
fn extract<T: Manager>(m: &mut T, id: usize, r: (usize, usize)) -> Array2<f64> {
    m.extract(id, r)
}
fn free_mem(steps: usize, parts: usize) -> Mem {
    let mut st = vec![];
    for s in 0..steps {
        let mut ps = vec![];
        for p in 0..parts {
            let f = |n: &str| real(&format!("{n}{s}{p}"), -8, 8);
            ps.push(Particle::new(p + 1, [f("x"), f("y"), f("z")], [f("u"), f("v"), f("w")]));
        }
        st.push(Step { time: real(&format!("t{s}"), 0, 64), p: ps });
    }
    Mem::new(st)
}
fn c23_rows() {
    let n = t(4);
    let mut m = free_mem(n, 3);
    let id = choose("particle", 3);
    let (a, b) = (choose("from", n), choose("to", n + 1));
    assume(a <= b);
    let r = extract(&mut m, id, (a, b));
    check(r.shape() == &[b - a, 7], "one row per step");
    for k in a..b {
        let s = &m.steps[k];
        let want = [s.time, s.p[id].pos[0], s.p[id].pos[1], s.p[id].pos[2], s.p[id].vel[0], s.p[id].vel[1], s.p[id].vel[2]];
        for c in 0..7 {
            eq(r[[k - a, c]], want[c], &format!("column {c}"));
        }
    }
    cover(if b == n { "last step" } else { "done" });
}
fn c23_bounds() {
    let mut m = free_mem(3, 2);
    let (a, b) = (choose("from", 6), choose("to", 6));
    assume(a <= b && (b > 3 || a >= 3));
    check(catches(|| extract(&mut m, 0, (a, b))).is_err(), "steps beyond the end are accepted");
    cover("rejected");
}
/// undefined values stay where they are, times keep every digit, and a particle that a snapshot lacks is refused
fn c23_odd() {
    let id = choose("particle", 3);
    let lacking = choose("lacking", 4);
    let odd = choose("odd", 7);
    let time = [-1234.567, 0.1, 7000.3];
    let mut st = vec![];
    for s in 0..3 {
        let mut ps = vec![];
        for p in 0..if s == lacking { 2 } else { 3 } {
            let mut v: Vec<f64> = (0..6).map(|k| (s * 7 + p * 3 + k) as f64 + 0.3).collect();
            if s == 1 && p == id {
                v = (0..6).map(|k| real(&format!("v{k}"), -8, 8)).collect();
                if odd < 6 {
                    v[odd] = NAN;
                }
            }
            ps.push(Particle::new(p + 1, [v[0], v[1], v[2]], [v[3], v[4], v[5]]));
        }
        st.push(Step { time: time[s], p: ps });
    }
    let mut m = Mem::new(st);
    let r = catches(|| extract(&mut m, id, (0, 3)));
    if id == 2 && lacking < 3 {
        cover("refused");
        check(r.is_err(), "a particle that a snapshot lacks is accepted");
        return;
    }
    let r = match r {
        Ok(r) => r,
        Err(_) => return check(false, "a particle of the dataset is refused"),
    };
    for k in 0..3 {
        let s = &m.steps[k];
        check(r[[k, 0]] == s.time, "time");
        for c in 0..3 {
            for (got, want) in [(r[[k, 1 + c]], s.p[id].pos[c]), (r[[k, 4 + c]], s.p[id].vel[c])] {
                if want.is_nan() {
                    check(got.is_nan(), "an undefined value stays undefined");
                } else {
                    check(got == want, "a defined value is kept");
                }
            }
        }
    }
    cover("done");
}
/// late rows of long datasets
fn c23_long() {
    let (n, np) = [(300, 2), (3, 270)][choose("shape", 2)];
    let id = [0, np - 1][choose("particle", 2)];
    let mut st = vec![];
    for s in 0..n {
        let ps = (0..np)
            .map(|p| {
                let f = |k: usize| {
                    if s + 1 == n && p == id {
                        real(&format!("v{k}"), -8, 8)
                    } else {
                        (s * 7 + p * 3 + k) as f64
                    }
                };
                Particle::new(p + 1, [f(0), f(1), f(2)], [f(3), f(4), f(5)])
            })
            .collect();
        st.push(Step { time: s as f64 * 0.5 - 20.0, p: ps });
    }
    let mut m = Mem::new(st);
    let (a, b) = [(0, n), (n - 2, n), (1, n - 1), (n / 2, n)][choose("range", 4)];
    let r = extract(&mut m, id, (a, b));
    check(r.shape() == &[b - a, 7], "one row per step");
    for k in a..b {
        let s = &m.steps[k];
        let want = [s.time, s.p[id].pos[0], s.p[id].pos[1], s.p[id].pos[2], s.p[id].vel[0], s.p[id].vel[1], s.p[id].vel[2]];
        for c in 0..7 {
            eq(r[[k - a, c]], want[c], &format!("column {c}"));
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- mixing
fn lacey<T: Manager>(m: &mut T, g: G, s: &ParticleSelector, a: usize, b: usize, th: usize) -> (Array1<f64>, Array1<f64>) {
    m.lacey_mixing(g, s, a, b, th)
}
fn conc<T: Manager>(m: &mut T, g: G, s: &ParticleSelector, a: usize, b: usize) -> G {
    m.concentration_field(g, s, a, b)
}
fn msd_field<T: Manager>(m: &mut T, g: G, s: &ParticleSelector, lag: f64) -> G {
    m.msd_field(g, s, lag)
}
fn msd<T: Manager>(m: &mut T, g: G, s: &ParticleSelector, a: f64, b: f64, n: usize) -> (Array1<f64>, Array1<f64>) {
    m.msd(g, s, a, b, n)
}
/// gives the particles types
fn typed(sc: &mut Scene, f: impl Fn(usize, usize) -> usize) {
    let mut st = sc.mem.steps.clone();
    for (s, x) in st.iter_mut().enumerate() {
        for (p, q) in x.p.iter_mut().enumerate() {
            q.ptype = f(s, p) as f64;
        }
    }
    let old = std::mem::replace(&mut sc.mem, Mem::new(st));
    sc.mem.vmag = old.vmag;
}
fn c24(mut sc: Scene, a: usize, b: usize, th: usize) {
    let (time, idx) = lacey(&mut sc.mem, sc.grid.clone(), &sc.sel, a, b, th);
    let cells = (sc.cells[0] * sc.cells[1] * sc.cells[2]) as f64;
    for s in 0..sc.mem.steps.len() {
        let here: Vec<&Sample> = sc.samples.iter().filter(|x| x.step == s).collect();
        if here.iter().any(|x| !x.window) {
            continue;
        }
        let ty = |x: &Sample| sc.mem.steps[s].p[x.particle].ptype;
        let (mut na, mut nb) = (0.0, 0.0);
        let mut ca = Array3::<f64>::zeros(sc.cells);
        let mut cb = Array3::<f64>::zeros(sc.cells);
        for x in &here {
            if !x.selected {
                continue;
            }
            if ty(x) == a as f64 {
                na += 1.0;
                if let Some(c) = x.cell {
                    ca[c] += 1.0;
                }
            } else if ty(x) == b as f64 {
                nb += 1.0;
                if let Some(c) = x.cell {
                    cb[c] += 1.0;
                }
            }
        }
        let m: f64 = na / (na + nb);
        let mut sq: f64 = 0.0;
        for (x, y) in ca.iter().zip(cb.iter()) {
            if x + y > 0.0 && x + y >= th as f64 {
                sq += (x / (x + y) - m) * (x / (x + y) - m);
            }
        }
        sq /= cells - 1.0;
        let s0 = m * (1.0 - m);
        check(idx.len() > s && time.len() > s, "a snapshot has no index");
        eq(time[s], sc.mem.steps[s].time, "time of the index");
        if na > 0.0 && nb > 0.0 {
            cover("mixed");
            eq(idx[s], (s0 - sq) / (s0 - s0 / cells), "Lacey index");
        }
    }
    cover("done");
}
fn c24_index() {
    let n = if thorough() { 5 } else { 4 };
    let mut sc = crowd(&o(1, n, false));
    let ty: Vec<usize> = (0..n).map(|p| 1 + choose(&format!("type{p}"), 3)).collect();
    typed(&mut sc, |_, p| ty[p]);
    c24(sc, 1, 2, choose("threshold", 4));
}
fn c24_place() {
    let mut sc = place(&o(1, 3, false));
    typed(&mut sc, |_, p| [4, 1, 4][p]);
    c24(sc, 4, 1, choose("threshold", 2));
}
fn c24_steps() {
    let mut sc = crowd(&o(t(2), 3, false));
    typed(&mut sc, |s, p| 1 + (s + p) % 3);
    let (a, b) = [(1, 2), (2, 1), (3, 1), (1, 7), (0, 2)][choose("types", 5)];
    c24(sc, a, b, 1);
}
fn c24_select() {
    let mut sc = select(&o(2, 4, false));
    typed(&mut sc, |_, p| [1, 2, 2, 1][p]);
    c24(sc, 1, 2, 1);
}
fn c24_window() {
    let mut sc = window(&o(4, 3, false));
    typed(&mut sc, |_, p| [1, 2, 2][p]);
    c24(sc, 1, 2, 0);
}
fn c24_gaps() {
    let mut sc = gaps(&o(2, 3, false), false);
    typed(&mut sc, |s, p| [[1, 2, 1], [2, 1, 2]][s][p]);
    c24(sc, 1, 2, 0);
}

fn c24_corner() {
    let mut sc = corner(false);
    typed(&mut sc, |s, p| [300, 44, 300, 1][(p + 2 * s) % 4]);
    c24(sc, 300, 44, choose("threshold", 2));
}
fn c24_far() {
    let mut sc = far(&o(6, 3, false));
    typed(&mut sc, |s, p| [1, 2, 1][(p + s) % 3]);
    c24(sc, 1, 2, choose("threshold", 2));
}
fn c24_broad() {
    let mut sc = broad(false);
    typed(&mut sc, |s, p| [1, 2, 1, 3, 2][(p + s) % 5]);
    c24(sc, 1, 2, choose("threshold", 3));
}
fn c24_mixed() {
    let mut sc = mixed(&o(2, 4, false), true);
    typed(&mut sc, |s, p| [[3, 3, 2, 1], [1, 2, 1, 2]][s][p]);
    c24(sc, 1, 2, choose("threshold", 2));
}
fn c24_long() {
    let mut sc = long();
    typed(&mut sc, |s, p| [1, 2, 1, 3, 2][(p + s) % 5]);
    c24(sc, 1, 2, 1);
}

fn c25(mut sc: Scene, a: usize, b: usize) {
    let g = conc(&mut sc.mem, sc.grid.clone(), &sc.sel, a, b);
    let (s, n) = sc.sums(|p, _| {
        if p.ptype == a as f64 {
            Some(1.0)
        } else if p.ptype == b as f64 {
            Some(0.0)
        } else {
            None
        }
    });
    expect(g.as_ref(), &(&s / &n), &n, "concentration");
    cover("done");
}
fn c25_types() {
    let mut sc = crowd(&o(2, 2, false));
    let ty: Vec<usize> = (0..4).map(|p| 1 + choose(&format!("type{p}"), 3)).collect();
    typed(&mut sc, |s, p| ty[2 * s + p]);
    c25(sc, 1, 2)
}
fn c25_place() {
    let mut sc = place(&o(2, 2, false));
    typed(&mut sc, |s, p| [[4, 1], [1, 4]][s][p]);
    c25(sc, 4, 1)
}
fn c25_select() {
    let mut sc = select(&o(2, 3, false));
    typed(&mut sc, |_, p| [1, 2, 1][p]);
    c25(sc, 1, 2)
}
fn c25_window() {
    let mut sc = window(&o(t(4), 2, false));
    typed(&mut sc, |s, p| [1, 2][(s / 3 + p) % 2]);
    c25(sc, 1, 2)
}
fn c25_gaps() {
    let mut sc = gaps(&o(2, 3, false), false);
    typed(&mut sc, |_, p| [1, 2, 2][p]);
    c25(sc, 2, 1)
}
fn c25_cyl() {
    let mut sc = cylinder(&o(2, 2, false));
    typed(&mut sc, |_, p| [1, 2][p]);
    c25(sc, 1, 2)
}
fn c25_swap() {
    let mut sc = crowd(&o(2, 3, false));
    typed(&mut sc, |s, p| [[1, 2, 2], [3, 1, 2]][s][p]);
    let x = conc(&mut sc.mem, sc.grid.clone(), &sc.sel, 1, 2);
    let y = conc(&mut sc.mem, sc.grid.clone(), &sc.sel, 2, 1);
    for ((p, q), w) in x.get_data().iter().zip(y.get_data().iter()).zip(x.get_weights().iter()) {
        if *w > 0.0 {
            eq(*p, 1.0 - *q, "swapped types");
            le(0.0, *p, "not below zero");
            le(*p, 1.0, "not above one");
        }
    }
    expect(y.as_ref(), y.get_data(), x.get_weights(), "weights after swapping");
    cover("done");
}

fn c25_corner() {
    let mut sc = corner(false);
    typed(&mut sc, |s, p| [300, 44, 300, 1][(p + 2 * s) % 4]);
    c25(sc, 300, 44);
}
/// one particle per snapshot
fn c25_single() {
    let mut sc = crowd(&o(4, 1, false));
    typed(&mut sc, |s, _| [1, 2, 1, 3][s]);
    c25(sc, 1, 2);
}
fn c25_far() {
    let mut sc = far(&o(6, 3, false));
    typed(&mut sc, |s, p| [1, 2, 3][(p + s) % 3]);
    c25(sc, 1, 2);
}
fn c25_broad() {
    let mut sc = broad(false);
    typed(&mut sc, |s, p| [1, 2, 1, 3, 2][(p + s) % 5]);
    c25(sc, 1, 2);
}
fn c25_mixed() {
    let mut sc = mixed(&o(2, 4, false), true);
    typed(&mut sc, |s, p| [[3, 3, 2, 1], [1, 2, 1, 2]][s][p]);
    c25(sc, 1, 2);
}
fn c25_long() {
    let mut sc = long();
    typed(&mut sc, |s, p| [1, 2, 1, 3, 2][(p + s) % 5]);
    c25(sc, 1, 2);
}

// ---------------------------------------------------------------- displacement
fn sq_dist(a: [f64; 3], b: [f64; 3]) -> f64 {
    (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
}
fn c26_want(sc: &Scene, lag: f64) -> (Array3<f64>, Array3<f64>) {
    let lat: Vec<Option<[f64; 3]>> = sc.samples.iter().map(|x| later(sc, x, lag)).collect();
    sc.sums(|p, x| {
        let i = sc.samples.iter().position(|y| y.step == x.step && y.particle == x.particle).unwrap();
        lat[i].map(|q| sq_dist(p.pos, q))
    })
}
fn c26(mut sc: Scene, lag: f64) {
    let g = msd_field(&mut sc.mem, sc.grid.clone(), &sc.sel, lag);
    let (s, n) = c26_want(&sc, lag);
    let mut want = s.clone();
    for (v, w) in want.iter_mut().zip(n.iter()) {
        *v = if *w > 0.0 { *v / *w } else { 0.0 };
    }
    expect(g.as_ref(), &want, &n, "mean squared displacement");
    cover("done");
}
fn c26_moves() {
    // from known cells to anywhere
    let mut sc = crowd(&o(2, 2, false));
    let mut st = sc.mem.steps.clone();
    for p in 0..2 {
        st[1].p[p].pos = [real(&format!("x{p}"), -8, 8), real(&format!("y{p}"), -8, 8), real(&format!("z{p}"), -8, 8)];
    }
    for x in sc.samples.iter_mut() {
        x.window = x.step == 0;
    }
    sc.mem = Mem::new(st);
    sc.sel.time = (0.0, 0.75);
    c26(sc, 0.5)
}
fn c26_place() {
    c26(place(&o(2, 2, false)), [0.0, 0.5][choose("lag", 2)])
}
fn c26_select() {
    c26(select(&o(4, 2, false)), 1.5)
}
fn c26_window() {
    c26(window(&o(4, 2, false)), 0.5)
}
fn c26_gaps() {
    c26(gaps(&o(3, 2, false), false), 0.5)
}
fn c26_lag() {
    c26(crowd(&o(3, 2, false)), real("lag", -3, 5))
}
fn c26_cyl() {
    c26(cylinder(&o(3, 2, false)), 0.5)
}
fn c26_corner() {
    c26(corner(false), 1.25)
}
/// one particle per snapshot
fn c26_single() {
    c26(crowd(&o(4, 1, false)), [0.0, 2.0][choose("lag", 2)])
}
fn c26_shift() {
    c26(shift(&o(5, 4, false)), [0.0, 0.625, 1.625][choose("lag", 3)])
}
fn c26_far() {
    c26(far(&o(6, 3, false)), [1234.5, -2000.5, 0.0][choose("lag", 3)])
}
fn c26_broad() {
    c26(broad(false), 0.5)
}
fn c26_mixed() {
    c26(mixed(&o(3, 4, false), false), 0.5)
}
fn c26_long() {
    c26(long(), 0.25)
}
fn c26_list() {
    let n = 2 + choose("steps", 3);
    // (also a single time and times in descending order)
    let (lo, hi) = [(0.0, 1.5), (0.5, 1.5), (-0.5, 1.5), (0.0, 2.5), (0.5, 2.5), (-0.5, 2.5), (1.5, 1.5), (2.5, 0.5)][choose("times", 8)];
    let mut sc = crowd(&o(3, 2, false));
    // uneven numbers of samples per cell; moves symbolic along one axis
    let mut st = sc.mem.steps.clone();
    st[2].p[0].pos[0] = real("x", -1, 1);
    sc.samples.iter_mut().filter(|x| x.step == 2 && x.particle == 0).for_each(|x| {
        let c = x.cell.unwrap();
        x.cell = Some([0, c[1], c[2]]);
    });
    assume_lt(st[2].p[0].pos[0], 1.0);
    sc.mem = Mem::new(st);
    let (m, times) = msd(&mut sc.mem, sc.grid.clone(), &sc.sel, lo, hi, n);
    check(m.len() == n && times.len() == n, "one value per time");
    for i in 0..n {
        let lag = lo + (hi - lo) * i as f64 / (n - 1) as f64;
        eq(times[i], lag, "equally spaced times");
        let (s, c) = c26_want(&sc, lag);
        let (a, b) = (s.iter().fold(0.0, |a, x| a + x), c.iter().fold(0.0, |a, x| a + x));
        if b > 0.0 {
            cover("samples");
            eq(m[i], a / b, "mean over all samples");
            le(0.0, m[i], "never negative");
        }
    }
}

fn c26_list_long() {
    let mut sc = long();
    let n = [2, 7, 20][choose("n", 3)];
    let (lo, hi) = [(0.0, 0.25), (-1.5, 3.25)][choose("range", 2)];
    let (m, times) = msd(&mut sc.mem, sc.grid.clone(), &sc.sel, lo, hi, n);
    check(m.len() == n && times.len() == n, "one value per time");
    for i in [0, 1, n - 1] {
        let lag = lo + (hi - lo) * i as f64 / (n - 1) as f64;
        eq(times[i], lag, "equally spaced times");
        // only times that match snapshots exactly (a tie between snapshots is left open)
        if (lag * 4.0).fract() != 0.0 {
            continue;
        }
        let (s, c) = c26_want(&sc, lag);
        let (a, b) = (s.iter().fold(0.0, |a, x| a + x), c.iter().fold(0.0, |a, x| a + x));
        if b > 0.0 {
            cover("samples");
            eq(m[i], a / b, "mean over all samples");
        }
    }
}

// ---------------------------------------------------------------- helpers
fn c27_nan() {
    let sh = [[2, 2, 1], [1, 3, 1], [1, 1, 4]][choose("shape", 3)];
    let a = Array3::from_shape_fn(sh, |(i, j, k)| maybe_nan(&format!("a{i}{j}{k}"), -8, 8));
    let v: Vec<f64> = a.iter().copied().filter(|x| !x.is_nan()).collect();
    let (m, s) = (nan_mean(&a), nan_std(&a));
    if v.is_empty() {
        cover("empty");
        check(m.is_nan() && s.is_nan(), "a mean of nothing");
        return;
    }
    let mean = v.iter().fold(0.0, |x, y| x + y) / v.len() as f64;
    eq(m, mean, "mean of the defined values");
    let var = v.iter().fold(0.0, |x, y| x + (y - mean) * (y - mean)) / v.len() as f64;
    le(0.0, s, "standard deviation is not negative");
    eq(s * s, var, "square of the standard deviation");
    cover("done");
}
fn c27_minmax() {
    let n = 1 + choose("n", t(3));
    let a = Array1::from_shape_fn(n, |i| maybe_nan(&format!("a{i}"), -8, 8));
    let (lo, hi) = maths::minmax(&a);
    let mut some = false;
    for x in a.iter().filter(|x| !x.is_nan()) {
        le(lo, *x, "minimum");
        le(*x, hi, "maximum");
        some = true;
    }
    if some {
        check(a.iter().any(|x| *x == lo), "the minimum is an element");
        check(a.iter().any(|x| *x == hi), "the maximum is an element");
        cover("done");
    }
}
fn c27_flatten() {
    let (n, m, l) = [(2, 3, 2), (3, 1, 4), (1, 2, 3)][choose("shape", 3)];
    let a = Array2::from_shape_fn((n, m), |(i, j)| real(&format!("a{i}{j}"), -8, 8));
    let f = maths::flatten_2d(&a);
    check(f.len() == n * m, "length");
    let rev = a.clone().reversed_axes(); // other memory order
    let fr = maths::flatten_2d(&rev);
    for i in 0..n {
        for j in 0..m {
            eq(f[i * m + j], a[[i, j]], "row-major order");
            eq(fr[j * n + i], a[[i, j]], "row-major order of a transposed array");
        }
    }
    let b = Array3::from_shape_fn((n, m, l), |(i, j, k)| real(&format!("b{i}{j}{k}"), -8, 8));
    let f = maths::flatten_3d(&b);
    check(f.len() == n * m * l, "length");
    let fr = maths::flatten_3d(&b.clone().reversed_axes());
    for i in 0..n {
        for j in 0..m {
            for k in 0..l {
                eq(f[(i * m + j) * l + k], b[[i, j, k]], "row-major order");
                eq(fr[(k * m + j) * n + i], b[[i, j, k]], "row-major order of a transposed array");
            }
        }
    }
    cover("done");
}
fn c27_mesh() {
    let (n, m, l) = [(2, 3, 4), (3, 1, 2), (1, 2, 3)][choose("shape", 3)];
    let x = Array1::from_shape_fn(n, |i| real(&format!("x{i}"), -8, 8));
    let y = Array1::from_shape_fn(m, |i| real(&format!("y{i}"), -8, 8));
    let z = Array1::from_shape_fn(l, |i| real(&format!("z{i}"), -8, 8));
    let (a, b) = maths::meshgrid(&x, &y);
    check(a.shape() == &[n, m] && b.shape() == &[n, m], "shape");
    let (p, q, r) = maths::meshgrid3d(&x, &y, &z);
    check(p.shape() == &[n, m, l] && q.shape() == &[n, m, l] && r.shape() == &[n, m, l], "shape");
    for i in 0..n {
        for j in 0..m {
            eq(a[[i, j]], x[i], "first coordinate");
            eq(b[[i, j]], y[j], "second coordinate");
            for k in 0..l {
                eq(p[[i, j, k]], x[i], "first coordinate");
                eq(q[[i, j, k]], y[j], "second coordinate");
                eq(r[[i, j, k]], z[k], "third coordinate");
            }
        }
    }
    cover("done");
}
/// infinite elements, and values whose spread is small against their size (IEEE arithmetic)
fn c27_odd() {
    let inf = f64::INFINITY;
    let x = real("x", -8, 8);
    let arr = [vec![x, inf], vec![-inf, x], vec![NAN, inf, x, -inf], vec![x, -inf, NAN]][choose("array", 4)].clone();
    let (lo, hi) = maths::minmax(&Array1::from_vec(arr.clone()));
    let (mut wl, mut wh) = (x, x);
    for a in &arr {
        if *a == inf {
            wh = inf;
        }
        if *a == -inf {
            wl = -inf;
        }
    }
    check(lo == wl && hi == wh, "extremes of arrays with infinite elements");
    let a3 = |v: Vec<f64>| Array3::from_shape_vec((v.len(), 1, 1), v).unwrap();
    check(nan_mean(&a3(vec![x, inf, NAN])) == inf, "an infinite element is a value");
    check(nan_mean(&a3(vec![x, -inf])) == -inf, "an infinite element is a value");
    let base = [0.1, 1.0 / 3.0, 12345.6789, 1e6 + 0.1, 1e8][choose("base", 5)];
    let n = [2, 3, 7, 60][choose("n", 4)];
    let s = nan_std(&a3(vec![base; n]));
    check(s >= 0.0 && s <= 1e-9 * base, "equal values have no spread");
    let s = nan_std(&a3((0..2 * n).map(|i| base + (i % 2) as f64).collect()));
    check((s - 0.5).abs() < 1e-6, "spread of two values one apart");
    cover("done");
}
/// larger arrays
fn c27_many() {
    let sh = [[7, 5, 9], [300, 1, 1], [1, 2, 140]][choose("shape", 3)];
    let total = sh[0] * sh[1] * sh[2];
    let at = [0, total / 2, total - 1][choose("at", 3)];
    let x = maybe_nan("x", -8, 8);
    let f = |i: usize| {
        if i == at {
            x
        } else if i % 7 == 2 {
            NAN
        } else {
            ((i * 37) % 41) as f64 * 0.25 - 5.0
        }
    };
    let a = Array3::from_shape_fn(sh, |(i, j, k)| f((i * sh[1] + j) * sh[2] + k));
    let v: Vec<f64> = (0..total).map(f).filter(|x| !x.is_nan()).collect();
    let n = v.len() as f64;
    let mean = v.iter().fold(0.0, |x, y| x + y) / n;
    eq(nan_mean(&a), mean, "mean of the defined values");
    let s = nan_std(&a);
    let var = v.iter().fold(0.0, |x, y| x + (y - mean) * (y - mean)) / n;
    le(0.0, s, "standard deviation is not negative");
    eq(s * s, var, "square of the standard deviation");
    let flat = Array1::from_iter((0..total).map(f));
    let (lo, hi) = maths::minmax(&flat);
    for y in &v {
        le(lo, *y, "minimum");
        le(*y, hi, "maximum");
    }
    check(v.iter().any(|y| *y == lo) && v.iter().any(|y| *y == hi), "the extremes are elements");
    let fl = maths::flatten_3d(&a);
    check(fl.len() == total, "length");
    for i in 0..total {
        eq(fl[i], f(i), "row-major order");
    }
    let b = Array2::from_shape_fn((sh[0] * sh[1], sh[2]), |(i, j)| f(i * sh[2] + j));
    let fl = maths::flatten_2d(&b);
    check(fl.len() == total, "length");
    for i in 0..total {
        eq(fl[i], f(i), "row-major order");
    }
    cover("done");
}
#[allow(unused)]
fn _uses(m: &mut Mem) {
    let _ = m.get_timestep(0);
}
