//! C13 velocity field, C14 number field, C10 vector field, C15 occupancy, C16 histogram,
//! C17 granular temperature, C18 dispersion, C19 mean velocity, C20 homogeneity.
use crate::scene::*;
use crate::sym::*;
use crate::world::*;
use crate::Entry;
use ndarray::prelude::*;
use upppp_rust::datamanager::Manager;
use upppp_rust::grid::{GridFunctions3D, VectorGrid};
use upppp_rust::ParticleSelector;

pub const ALL: &[Entry] = &[
    ("c10_place", c10_place),
    ("c10_crowd", c10_crowd),
    ("c10_select", c10_select),
    ("c10_window", c10_window),
    ("c10_gaps", c10_gaps),
    ("c10_cyl", c10_cyl),
    ("c10_components", c10_components),
    ("c10_broad", c10_broad),
    ("c10_far", c10_far),
    ("c10_corner", c10_corner),
    ("c10_long", c10_long),
    ("c10_mixed", c10_mixed),
    ("c13_place", c13_place),
    ("c13_crowd", c13_crowd),
    ("c13_select", c13_select),
    ("c13_window", c13_window),
    ("c13_gaps", c13_gaps),
    ("c13_cyl", c13_cyl),
    ("c13_modes", c13_modes),
    ("c13_range", c13_range),
    ("c13_ranges", c13_ranges),
    ("c13_broad", c13_broad),
    ("c13_far", c13_far),
    ("c13_corner", c13_corner),
    ("c13_long", c13_long),
    ("c13_mixed", c13_mixed),
    ("c14_place", c14_place),
    ("c14_crowd", c14_crowd),
    ("c14_select", c14_select),
    ("c14_window", c14_window),
    ("c14_gaps", c14_gaps),
    ("c14_cyl", c14_cyl),
    ("c14_broad", c14_broad),
    ("c14_far", c14_far),
    ("c14_corner", c14_corner),
    ("c14_long", c14_long),
    ("c14_mixed", c14_mixed),
    ("c15_moves", c15_moves),
    ("c15_select", c15_select),
    ("c15_window", c15_window),
    ("c15_speed", c15_speed),
    ("c15_speeds", c15_speeds),
    ("c15_times", c15_times),
    ("c15_gaps", c15_gaps),
    ("c15_cyl", c15_cyl),
    ("c15_broad", c15_broad),
    ("c15_far", c15_far),
    ("c15_shift", c15_shift),
    ("c15_corner", c15_corner),
    ("c15_long", c15_long),
    ("c15_mixed", c15_mixed),
    ("c16_bins", c16_bins),
    ("c16_edges", c16_edges),
    ("c16_many", c16_many),
    ("c16_place", c16_place),
    ("c16_select", c16_select),
    ("c16_window", c16_window),
    ("c16_gaps", c16_gaps),
    ("c16_broad", c16_broad),
    ("c16_far", c16_far),
    ("c16_corner", c16_corner),
    ("c16_long", c16_long),
    ("c16_mixed", c16_mixed),
    ("c16_limit", c16_limit),
    ("c16_unknown", c16_unknown),
    ("c17_crowd", c17_crowd),
    ("c17_place", c17_place),
    ("c17_select", c17_select),
    ("c17_window", c17_window),
    ("c17_gaps", c17_gaps),
    ("c17_cyl", c17_cyl),
    ("c17_broad", c17_broad),
    ("c17_far", c17_far),
    ("c17_corner", c17_corner),
    ("c17_long", c17_long),
    ("c17_mixed", c17_mixed),
    ("c17_equal", c17_equal),
    ("c18_crowd", c18_crowd),
    ("c18_place", c18_place),
    ("c18_select", c18_select),
    ("c18_window", c18_window),
    ("c18_gaps", c18_gaps),
    ("c18_lag", c18_lag),
    ("c18_later", c18_later),
    ("c18_cyl", c18_cyl),
    ("c18_broad", c18_broad),
    ("c18_far", c18_far),
    ("c18_shift", c18_shift),
    ("c18_single", c18_single),
    ("c18_corner", c18_corner),
    ("c18_long", c18_long),
    ("c18_mixed", c18_mixed),
    ("c19_select", c19_select),
    ("c19_window", c19_window),
    ("c19_gaps", c19_gaps),
    ("c19_values", c19_values),
    ("c19_broad", c19_broad),
    ("c19_far", c19_far),
    ("c19_corner", c19_corner),
    ("c19_long", c19_long),
    ("c19_mixed", c19_mixed),
    ("c20_layers", c20_layers),
    ("c20_more", c20_more),
    ("c20_corner", c20_corner),
    ("c20_select", c20_select),
    ("c20_cyl", c20_cyl),
    ("c20_long", c20_long),
];

fn o(steps: usize, parts: usize, symvel: bool) -> Opt {
    Opt { steps, parts, symvel }
}
/// one more step in the thorough tier
fn t(steps: usize) -> usize {
    steps + thorough() as usize
}
// entry points generic over the manager, as the crate exposes the functions through its trait
fn velocityfield<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, mode: &str, lo: f64, hi: f64) -> Box<dyn GridFunctions3D> {
    m.velocityfield(g, s, mode, lo, hi)
}
fn vectorfield<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector) -> VectorGrid {
    m.vectorfield(g, s)
}
fn numberfield<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector) -> Box<dyn GridFunctions3D> {
    m.numberfield(g, s)
}
fn occupancy<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, v: f64) -> Box<dyn GridFunctions3D> {
    m.occupancyfield(g, s, v)
}
fn histogram<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, p: &str, max: f64, bins: usize) -> (Array1<f64>, Array1<f64>) {
    m.histogram(g, s, p, max, bins)
}
fn grantemp<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, mode: &str) -> Box<dyn GridFunctions3D> {
    m.granular_temperature_field(g, s, mode)
}
fn dispersion<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, t: f64) -> (Box<dyn GridFunctions3D>, f64) {
    m.dispersion(g, s, t)
}
fn homogeneity<T: Manager>(m: &mut T, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, v: f64) -> f64 {
    m.homogenity_index(g, s, v)
}

// ---------------------------------------------------------------- vector field
fn c10(mut sc: Scene) {
    let vg = vectorfield(&mut sc.mem, sc.grid.clone(), &sc.sel);
    for k in 0..3 {
        let (s, n) = sc.sums(|p, x| if x.vel { Some(p.vel[k]) } else { None });
        expect(vg.data[k].as_ref(), &(&s / &n), &n, &format!("component {k}"));
    }
    cover("done");
}
fn c10_place() {
    c10(place(&o(2, 2, true)))
}
fn c10_crowd() {
    c10(crowd(&o(t(2), 2, true)))
}
fn c10_select() {
    c10(select(&o(2, 2, true)))
}
fn c10_window() {
    c10(window(&o(4, 2, true)))
}
fn c10_gaps() {
    c10(gaps(&o(2, 2, true), true))
}
fn c10_cyl() {
    let mut sc = cylinder(&o(2, t(1), true));
    let vg = vectorfield(&mut sc.mem, sc.grid.clone(), &sc.sel);
    let comp = |k: usize| {
        let rel = &sc.rel;
        sc.sums(|p, x| {
            let d = rel[x.step][x.particle];
            let r2 = d[0] * d[0] + d[1] * d[1];
            Some(match k {
                0 => (d[0] * p.vel[0] + d[1] * p.vel[1]) / r2.sqrt(),
                1 => (d[0] * p.vel[1] - d[1] * p.vel[0]) / r2,
                _ => p.vel[2],
            })
        })
    };
    for k in 0..3 {
        let (s, n) = comp(k);
        expect(vg.data[k].as_ref(), &(&s / &n), &n, ["radial", "angular", "axial"][k]);
    }
    cover("done");
}
fn c10_corner() {
    c10(corner(true))
}
fn c10_far() {
    c10(far(&o(6, 3, true)))
}
fn c10_broad() {
    c10(broad(true))
}
fn c10_long() {
    c10(long())
}
fn c10_mixed() {
    c10(mixed(&o(2, 4, true), true))
}
/// the conversion of one velocity, position symbolic
fn c10_components() {
    let c = [real("cx", -4, 4), real("cy", -4, 4)];
    let g = cylg([2, 3, 2], c, 2.0, [-1.0, 3.0], true);
    let vg = VectorGrid::new(g);
    let k = real("k", 0, 1);
    assume_lt(0.0, k);
    // any distance along directions of rational length
    let e = [[1.0, 0.0], [0.0, -1.0], [0.75, 1.0], [-1.0, 0.75], [-0.75, -1.0], [-1.5, 0.625]][choose("dir", 6)];
    let len = [1.0, 1.0, 1.25, 1.25, 1.25, 1.625][match (e[0], e[1]) {
        (a, _) if a == 1.0 => 0,
        (a, b) if a == 0.0 && b == -1.0 => 1,
        (a, _) if a == -1.5 => 5,
        _ => 2,
    }];
    let v = [real("vx", -8, 8), real("vy", -8, 8), real("vz", -8, 8)];
    let pos = [c[0] + k * e[0], c[1] + k * e[1], 0.5];
    let w = vg.velocity_calculation(pos, arr1(&v));
    eq(w[0] * len, e[0] * v[0] + e[1] * v[1], "radial velocity");
    eq(w[1] * k * len * len, e[0] * v[1] - e[1] * v[0], "angular velocity");
    eq(w[2], v[2], "axial velocity");
    let u = VectorGrid::new(cart(N, LIM, true)).velocity_calculation(pos, arr1(&v));
    for i in 0..3 {
        eq(u[i], v[i], "cartesian component");
    }
    cover("done");
}

// ---------------------------------------------------------------- velocity field
const MODES: [&str; 9] = ["absolute", "x", "y", "z", "xy", "xz", "yz", "r", "theta"];
fn quantity(mode: &str, v: [f64; 3]) -> f64 {
    match mode {
        "absolute" => (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt(),
        "x" | "r" => v[0],
        "y" | "theta" => v[1],
        "z" => v[2],
        "xy" => (v[0] * v[0] + v[1] * v[1]).sqrt(),
        "xz" => (v[0] * v[0] + v[2] * v[2]).sqrt(),
        _ => (v[1] * v[1] + v[2] * v[2]).sqrt(),
    }
}
fn c13(mut sc: Scene, mode: &str) {
    let g = velocityfield(&mut sc.mem, sc.grid.clone(), &sc.sel, mode, -1e9, 1e9);
    let (s, n) = sc.sums(|p, x| if x.vel { Some(quantity(mode, p.vel)) } else { None });
    expect(g.as_ref(), &(&s / &n), &n, "velocity field");
    cover("done");
}
fn c13_place() {
    c13(place(&o(2, 2, true)), ["absolute", "y"][choose("mode", 2)])
}
fn c13_crowd() {
    c13(crowd(&o(t(2), 2, true)), ["x", "z"][choose("mode", 2)])
}
fn c13_select() {
    c13(select(&o(2, 2, true)), "y")
}
fn c13_window() {
    c13(window(&o(4, 2, true)), "z")
}
fn c13_gaps() {
    c13(gaps(&o(2, 2, true), true), "absolute")
}
fn c13_cyl() {
    c13(cylinder(&o(2, 2, true)), ["r", "theta", "xz"][choose("mode", 3)])
}
fn c13_modes() {
    let m = choose("mode", MODES.len() + 2);
    if m >= MODES.len() {
        let mut sc = crowd(&o(1, 1, true));
        let bad = ["speed", ""][m - MODES.len()];
        let r = catches(|| velocityfield(&mut sc.mem, sc.grid.clone(), &sc.sel, bad, -1e9, 1e9));
        check(r.is_err(), "an unknown mode is accepted");
        cover("unknown mode");
        return;
    }
    c13(crowd(&o(2, 1, true)), MODES[m]);
}
fn c13_corner() {
    // (a value of a partly undefined velocity is left open)
    let mode = choose("mode", 3);
    c13(corner(mode == 0), ["absolute", "z", "xy"][mode])
}
fn c13_far() {
    c13(far(&o(6, 3, true)), ["absolute", "y"][choose("mode", 2)])
}
fn c13_broad() {
    c13(broad(true), ["absolute", "y"][choose("mode", 2)])
}
fn c13_long() {
    c13(long(), ["absolute", "y"][flag("mode") as usize])
}
fn c13_mixed() {
    c13(mixed(&o(2, 4, true), true), ["absolute", "y"][choose("mode", 2)])
}
/// a refused value before or after accepted ones
fn c13_ranges() {
    let mode = MODES[choose("mode", 7)];
    let (lo, hi) = (real("lo", -8, 8), real("hi", -8, 8));
    let which = choose("which", 3);
    let mut sc = crowd(&o(1, 3, false));
    let mut steps = sc.mem.steps.clone();
    for p in 0..3 {
        steps[0].p[p].vel = [[1.0, -1.0, 2.0], [0.5, 0.75, 1.5], [-2.0, 3.0, 0.25]][p];
    }
    steps[0].p[which].vel[[0, 1, 2, 0, 1, 2, 0][MODES.iter().position(|m| *m == mode).unwrap()]] = real("v", -8, 8);
    sc.mem = Mem::new(steps);
    let g = velocityfield(&mut sc.mem, sc.grid.clone(), &sc.sel, mode, lo, hi);
    let (s, n) = sc.sums(|p, _| {
        let q = quantity(mode, p.vel);
        if q >= lo && q <= hi {
            Some(q)
        } else {
            None
        }
    });
    expect(g.as_ref(), &(&s / &n), &n, "velocity field");
    cover("done");
}
/// the closed interval of accepted values
fn c13_range() {
    let mode = MODES[choose("mode", 7)];
    let (lo, hi) = (real("lo", -8, 8), real("hi", -8, 8));
    let v = [real("vx", -8, 8), real("vy", -8, 8), real("vz", -8, 8)];
    let mut sc = crowd(&o(1, 1, false));
    let mut steps = sc.mem.steps.clone();
    steps[0].p[0].vel = v;
    sc.mem = Mem::new(steps);
    let g = velocityfield(&mut sc.mem, sc.grid.clone(), &sc.sel, mode, lo, hi);
    let q = quantity(mode, v);
    let ok = q >= lo && q <= hi;
    let (s, n) = sc.sums(|_, _| if ok { Some(q) } else { None });
    expect(g.as_ref(), &(&s / &n), &n, "velocity field");
    cover(if ok { "in range" } else { "out of range" });
}

// ---------------------------------------------------------------- number field
fn c14(mut sc: Scene) {
    let g = numberfield(&mut sc.mem, sc.grid.clone(), &sc.sel);
    let (s, n) = sc.sums(|_, _| Some(1.0));
    expect(g.as_ref(), &s, &n, "number field");
    cover("done");
}
fn c14_place() {
    c14(place(&o(2, t(2), false)))
}
fn c14_crowd() {
    c14(crowd(&o(t(3), 2, false)))
}
fn c14_select() {
    c14(select(&o(2, t(2), false)))
}
fn c14_window() {
    c14(window(&o(4, 2, false)))
}
fn c14_gaps() {
    c14(gaps(&o(t(2), 2, false), true))
}
fn c14_cyl() {
    c14(cylinder(&o(t(2), 2, false)))
}

fn c14_corner() {
    c14(corner(true))
}
fn c14_far() {
    c14(far(&o(6, 3, false)))
}
fn c14_broad() {
    c14(broad(true))
}
fn c14_long() {
    c14(long())
}
fn c14_mixed() {
    c14(mixed(&o(3, 4, false), true))
}

// ---------------------------------------------------------------- occupancy
/// the moves that count, deposited by the grid (see C05), divided by their total time
fn c15(sc: &mut Scene, min: f64, g: &dyn GridFunctions3D) {
    let mut want = sc.grid.new_zeros();
    let mut total = 0.0;
    let mut stays = true;
    let st = &sc.mem.steps;
    for x in &sc.samples {
        if !x.counts() || x.step + 1 >= st.len() {
            continue;
        }
        let row = match row_in(st, x.step, x.particle, x.step + 1) {
            Some(row) => row,
            None => continue,
        };
        let a = &st[x.step].p[x.particle];
        let b = &st[x.step + 1].p[row];
        let v2 = a.vel[0] * a.vel[0] + a.vel[1] * a.vel[1] + a.vel[2] * a.vel[2];
        // (concrete speeds are rounded as in the code)
        if min > 0.0 && if is_sym(v2) { v2 < min * min } else { v2.sqrt() < min } {
            continue;
        }
        let dt = st[x.step + 1].time - st[x.step].time;
        want.add_trajectory_value(a.pos, b.pos, dt);
        total += dt;
        let next = sc.samples.iter().find(|y| y.step == x.step + 1 && y.particle == row).unwrap();
        stays = stays && next.cell.is_some();
    }
    if total == 0.0 {
        cover("nothing");
        check(g.get_weights().iter().all(|w| *w == 0.0), "weight without any counted move");
        return;
    }
    want.divide_by_scalar(total);
    expect(g, want.get_data(), want.get_weights(), "occupancy");
    let mut sum = 0.0;
    for v in g.get_data().iter() {
        le(0.0, *v, "occupancy is not negative");
        sum += *v;
    }
    if stays {
        cover("sum is one");
        eq(sum, 1.0, "sum of the occupancy");
    } else {
        cover("leaves");
        le(sum, 1.0, "sum of the occupancy");
    }
}
fn c15_moves() {
    let mut sc = place(&o(3, 1, false));
    // moves along x only
    let mut st = sc.mem.steps.clone();
    for s in 0..3 {
        st[s].p[0].pos = [st[s].p[0].pos[0], 1.0, -3.0];
        sc.samples[s].cell = sc.samples[s].cell.map(|c| [c[0], 0, 0]);
    }
    sc.mem = Mem::new(st);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_select() {
    let mut sc = select(&o(3, 2, false));
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_window() {
    let mut sc = window(&o(4, 2, false));
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_speed() {
    let mut sc = crowd(&o(3, 1, true));
    let min = real("min", 0, 12);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, min);
    c15(&mut sc, min, g.as_ref());
}
/// several particles of which some are too slow, in any order
fn c15_speeds() {
    let mut sc = mixed(&o(3, 4, false), false);
    let min = real("min", 0, 12);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, min);
    c15(&mut sc, min, g.as_ref());
}
fn c15_mixed() {
    let mut sc = mixed(&o(3, 4, false), false);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
/// times symbolic: shares follow the times
fn c15_times() {
    let mut sc = crowd(&o(3, 1, false));
    let mut st = sc.mem.steps.clone();
    st[0].time = real("t0", 0, 4);
    st[1].time = st[0].time + real("d1", 0, 4);
    st[2].time = st[1].time + real("d2", 1, 4);
    sc.mem = Mem::new(st);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_gaps() {
    let mut sc = gaps(&o(3, 2, false), false);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_cyl() {
    let mut sc = cylinder(&o(3, 1, false));
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}

fn c15_corner() {
    let mut sc = corner(false);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_shift() {
    let mut sc = shift(&o(5, 4, false));
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_far() {
    let mut sc = far(&o(6, 3, false));
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_broad() {
    let mut sc = broad(false);
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}
fn c15_long() {
    let mut sc = long();
    let g = occupancy(&mut sc.mem, sc.grid.clone(), &sc.sel, 0.0);
    c15(&mut sc, 0.0, g.as_ref());
}

// ---------------------------------------------------------------- histogram
fn c16(mut sc: Scene, vmin: f64, vmax: f64, limit: f64, bins: usize) {
    sc.mem.vmag = [vmin, 2.0, vmax];
    let (h, e) = histogram(&mut sc.mem, sc.grid.clone(), &sc.sel, "velocity", limit, bins);
    let hi = if limit == 0.0 { vmax } else { limit };
    check(h.len() == bins && e.len() == bins + 1, "shape");
    for i in 0..=bins {
        eq(e[i], vmin + (hi - vmin) * i as f64 / bins as f64, "edges");
    }
    let speed = |x: &Sample| {
        let v = sc.mem.steps[x.step].p[x.particle].vel;
        (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
    };
    let mut total = 0.0;
    let mut inner = vec![0.0; bins];
    let mut outer = vec![0.0; bins];
    for x in &sc.samples {
        if !x.counts() || !x.vel {
            continue;
        }
        let v = speed(x);
        if !(v >= vmin && v <= hi) {
            cover("outside the edges");
            continue;
        }
        total += 1.0;
        cover("counted");
        for i in 0..bins {
            let (a, b) = (vmin + (hi - vmin) * i as f64 / bins as f64, vmin + (hi - vmin) * (i + 1) as f64 / bins as f64);
            if v > a && v < b {
                inner[i] += 1.0;
            }
            // (where no edge is rounded, each bin holds its lower edge, and the last one both)
            if v >= a && (v < b || v <= b && (i + 1 == bins || !bins.is_power_of_two())) {
                outer[i] += 1.0;
            }
        }
    }
    let mut sum = 0.0;
    for i in 0..bins {
        le(inner[i], h[i], "a value inside a bin is missing");
        le(h[i], outer[i], "a value outside a bin is counted");
        sum += h[i];
    }
    eq(sum, total, "values within the edges are counted once");
}
fn c16_bins() {
    let bins = [1, 3, 4][choose("bins", 3)];
    let limit = [0.0, 3.5][choose("limit", 2)];
    let mut sc = window(&o(2, 1, false));
    sc.sel = everyone();
    for x in sc.samples.iter_mut() {
        x.window = true;
    }
    let mut st = sc.mem.steps.clone();
    // one component symbolic, the others fixed
    let k = choose("component", 3);
    for s in 0..2 {
        st[s].p[0].vel = [0.0; 3];
        st[s].p[0].vel[k] = real(&format!("v{s}"), -8, 8);
    }
    sc.mem = Mem::new(st);
    c16(sc, 0.5, 6.5, limit, bins);
}
/// many bins (of widths without rounding), one symbolic speed
fn c16_many() {
    let bins = [16, 48][choose("bins", 2)];
    let limit = [0.0, 3.5][choose("limit", 2)];
    let mut sc = crowd(&o(1, 2, false));
    let mut st = sc.mem.steps.clone();
    st[0].p[0].vel = [0.0, real("v", -8, 8), 0.0];
    st[0].p[1].vel = [3.0, 4.0, 0.0];
    sc.mem = Mem::new(st);
    c16(sc, 0.5, 6.5, limit, bins);
}
/// the range itself is symbolic; the whole velocity vector is
fn c16_edges() {
    let lo = real("lo", 0, 2);
    let hi = real("hi", 3, 8);
    let mut sc = crowd(&o(1, 1, true));
    let lim = flag("limit");
    let top = if lim { 12.0 } else { hi };
    sc.mem.vmag = [lo, 2.0, top];
    c16(sc, lo, top, if lim { hi } else { 0.0 }, 2);
}
fn c16_unknown() {
    let mut sc = crowd(&o(1, 1, true));
    let bad = ["speed", "", "radius"][choose("bad", 3)];
    let r = catches(|| histogram(&mut sc.mem, sc.grid.clone(), &sc.sel, bad, 0.0, 3));
    check(r.is_err(), "an unknown property is accepted");
    cover("refused");
}
fn c16_place() {
    c16(place(&o(2, 1, false)), 0.0, 6.0, 0.0, 3)
}
fn c16_select() {
    c16(select(&o(2, 2, false)), 0.0, 6.0, 0.0, 3)
}
fn c16_window() {
    c16(window(&o(4, 2, false)), 0.0, 8.0, 0.0, 4)
}
fn c16_gaps() {
    c16(gaps(&o(2, 2, false), true), 0.0, 6.0, 0.0, 3)
}

fn c16_corner() {
    c16(corner(true), 0.25, 7.75, 0.0, 12)
}
fn c16_far() {
    c16(far(&o(6, 3, false)), 0.25, 7.75, 0.0, 5)
}
fn c16_broad() {
    let mut sc = broad(true);
    // concrete speeds
    let mut st = sc.mem.steps.clone();
    for (s, x) in st.iter_mut().enumerate() {
        if x.p.len() > 3 {
            x.p[3].vel = [0.5 + s as f64, -2.0, 1.5];
        }
    }
    sc.mem = Mem::new(st);
    c16(sc, 0.25, 7.75, 0.0, 5)
}
fn c16_long() {
    let mut sc = long();
    let mut st = sc.mem.steps.clone();
    for x in st.iter_mut().flat_map(|s| s.p.iter_mut()).filter(|p| is_sym(p.vel[0])) {
        x.vel = [real("late", -8, 8), 0.0, 0.0];
    }
    sc.mem = Mem::new(st);
    c16(sc, 0.25, 4.75, 0.0, 3)
}
fn c16_mixed() {
    c16(mixed(&o(2, 4, false), true), 0.25, 7.75, 0.0, 3)
}
/// requested limits below and above the largest speed, no limit, and a negative one
fn c16_limit() {
    let limit = real("limit", -2, 24);
    let mut sc = crowd(&o(1, 2, false));
    let mut st = sc.mem.steps.clone();
    st[0].p[0].vel = [3.0, 4.0, 0.0];
    st[0].p[1].vel = [0.0, -1.5, 2.0];
    sc.mem = Mem::new(st);
    c16(sc, 0.5, 6.5, limit, 2)
}

// ---------------------------------------------------------------- granular temperature
fn c17(mut sc: Scene, mode: usize) {
    let g = grantemp(&mut sc.mem, sc.grid.clone(), &sc.sel, ["x", "y", "z", "xyz"][mode]);
    let (_, n) = sc.sums(|_, x| if x.vel { Some(0.0) } else { None });
    // variance: mean of the squared deviations from the mean
    let mut var = Array3::<f64>::zeros(sc.cells);
    for k in if mode == 3 { vec![0, 1, 2] } else { vec![mode] } {
        let (s, n) = sc.sums(|p, x| if x.vel { Some(p.vel[k]) } else { None });
        let m = &s / &n;
        let (d, _) = sc.sums(|p, x| {
            if x.vel {
                let e = p.vel[k] - m[x.cell.unwrap()];
                Some(e * e)
            } else {
                None
            }
        });
        var = var + &d / &n / (if mode == 3 { 3.0 } else { 1.0 });
    }
    for ((i, a), v) in g.get_data().indexed_iter().zip(var.iter()) {
        if n[i] == 0.0 {
            check(a.is_nan(), "a cell without samples has a temperature");
        } else {
            le(0.0, *a, "temperature is not negative");
            eq(a * a, *v, &format!("square of the temperature in {i:?}"));
        }
    }
    for ((i, a), b) in g.get_weights().indexed_iter().zip(n.iter()) {
        eq(*a, *b, &format!("weight of cell {i:?}"));
    }
    cover("done");
}
fn c17_crowd() {
    if flag("unknown") {
        let mut sc = crowd(&o(1, 1, false));
        let bad = ["abs", ""][choose("bad", 2)];
        let r = catches(|| grantemp(&mut sc.mem, sc.grid.clone(), &sc.sel, bad));
        check(r.is_err(), "an unknown mode is accepted");
        cover("unknown mode");
        return;
    }
    let m = choose("mode", 4);
    c17(crowd(&o(if thorough() { 3 } else { 2 }, if m == 3 { 1 } else { 2 }, true)), m)
}
/// equal velocities whose squares are rounded (concrete values, IEEE arithmetic)
fn c17_equal() {
    let v = (1 + choose("v", 60)) as f64 / 10.0;
    let n = 2 + choose("n", 6);
    let p = (0..n).map(|i| Particle::new(i + 1, [0.25, 3.0, -1.5], [v, -v, v / 3.0])).collect();
    let mut m = Mem::new(vec![Step { time: 0.5, p }]);
    let g = grantemp(&mut m, cart(N, LIM, true), &everyone(), ["x", "y", "z", "xyz"][choose("mode", 4)]);
    let a = g.get_data()[[0, 1, 0]];
    check(a >= 0.0 && a < 1e-5, "equal velocities have no temperature of zero");
    cover("done");
}
fn c17_place() {
    c17(place(&o(2, 2, false)), choose("mode", 4))
}
fn c17_select() {
    c17(select(&o(3, 2, false)), 1)
}
fn c17_window() {
    c17(window(&o(4, 2, false)), 2)
}
fn c17_gaps() {
    c17(gaps(&o(2, 2, false), true), 3 * choose("mode", 2))
}
fn c17_cyl() {
    c17(cylinder(&o(2, 2, false)), choose("mode", 4))
}

fn c17_corner() {
    c17(corner(true), choose("mode", 4))
}
fn c17_far() {
    c17(far(&o(6, 3, true)), choose("mode", 4))
}
fn c17_broad() {
    c17(broad(true), choose("mode", 4))
}
fn c17_mixed() {
    c17(mixed(&o(2, 4, false), true), 3 * choose("mode", 2))
}
fn c17_long() {
    c17(long(), 3 * flag("mode") as usize)
}

// ---------------------------------------------------------------- dispersion
/// (step, particle) pairs with the position `lag` later
pub fn later(sc: &Scene, x: &Sample, lag: f64) -> Option<[f64; 3]> {
    let st = &sc.mem.steps;
    let t = st[x.step].time + lag;
    if !(t >= st[0].time && t <= st[st.len() - 1].time) {
        return None;
    }
    // the snapshot closest to the time; ties are excluded
    let mut best = 0;
    for i in 1..st.len() {
        let (a, b) = ((st[best].time - t).abs(), (st[i].time - t).abs());
        assume(a != b);
        if b < a {
            best = i;
        }
    }
    let p = &st[best].p[row_in(st, x.step, x.particle, best)?];
    if p.pos.iter().any(|v| v.is_nan()) {
        return None;
    }
    Some(p.pos)
}
fn c18(mut sc: Scene, lag: f64) {
    let (g, eff) = dispersion(&mut sc.mem, sc.grid.clone(), &sc.sel, lag);
    let lat: Vec<Option<[f64; 3]>> = sc.samples.iter().map(|x| later(&sc, x, lag)).collect();
    let at = |x: &Sample| lat[sc.samples.iter().position(|y| y.step == x.step && y.particle == x.particle).unwrap()];
    let mut want = Array3::<f64>::zeros(sc.cells);
    let (_, n) = sc.sums(|_, x| at(x).map(|_| 0.0));
    for k in 0..3 {
        let (s, n) = sc.sums(|_, x| at(x).map(|q| q[k]));
        let m = &s / &n;
        let (d, _) = sc.sums(|_, x| {
            at(x).map(|q| {
                let e = q[k] - m[x.cell.unwrap()];
                e * e
            })
        });
        for (i, v) in want.indexed_iter_mut() {
            if n[i] > 1.0 {
                *v += d[i] / (n[i] - 1.0);
            }
        }
    }
    let (mut sw, mut swd) = (0.0, 0.0);
    for (i, v) in want.indexed_iter() {
        eq(g.get_data()[i], *v, &format!("dispersion in {i:?}"));
        let w = g.get_weights()[i];
        if n[i] > 1.0 {
            cover("spread");
            check(w > 0.0, "a cell with samples has no weight");
        } else {
            eq(w, 0.0, &format!("weight of {i:?}"));
        }
        sw += w;
        swd += w * g.get_data()[i];
    }
    eq(eff, swd / sw, "mixing effectiveness");
    cover("done");
}
/// one start cell, later positions symbolic in all axes
fn c18_crowd() {
    let n = if thorough() { 3 } else { 2 };
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..2 {
        let mut ps = vec![];
        for p in 0..n {
            let (pos, cell) = if s == 0 {
                ([0.25, 3.0, -1.5 + 0.5 * p as f64], Some([0, 1, 0]))
            } else {
                ([real(&format!("x{p}"), -4, 4), real(&format!("y{p}"), -4, 4), real(&format!("z{p}"), -4, 4)], None)
            };
            ps.push(Particle::new(p + 1, pos, [0.0; 3]));
            samples.push(Sample { step: s, particle: p, cell, selected: true, window: true, vel: true });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    let mut sc = Scene { mem: Mem::new(steps), sel: everyone(), grid: cart(N, LIM, true), cells: N, samples, rel: vec![] };
    // the second snapshot has no later one
    sc.sel.time = (0.0, 0.75);
    for x in sc.samples.iter_mut() {
        x.window = x.step == 0;
    }
    c18(sc, 0.5)
}
fn c18_place() {
    c18(place(&o(2, 2, false)), [0.0, 0.5][choose("lag", 2)])
}
fn c18_select() {
    c18(select(&o(4, 3, false)), 0.25 + 1.25)
}
fn c18_window() {
    c18(window(&o(4, 2, false)), 0.5)
}
fn c18_gaps() {
    c18(gaps(&o(3, 2, false), false), 0.5)
}
fn c18_lag() {
    c18(crowd(&o(3, 2, false)), real("lag", -3, 5))
}
fn c18_cyl() {
    c18(cylinder(&o(3, 2, false)), 0.5)
}

fn c18_corner() {
    c18(corner(true), 1.25)
}
/// one particle per snapshot
fn c18_single() {
    c18(crowd(&o(4, 1, false)), [0.0, 2.0][choose("lag", 2)])
}
fn c18_shift() {
    c18(shift(&o(5, 4, false)), [0.0, 0.625, 1.625][choose("lag", 3)])
}
fn c18_far() {
    c18(far(&o(6, 3, false)), [1234.5, -2000.5, 0.0][choose("lag", 3)])
}
fn c18_broad() {
    c18(broad(true), 0.5)
}
fn c18_mixed() {
    c18(mixed(&o(3, 4, false), false), 0.5)
}
/// the later positions of the first particles missing or undefined, in each order
fn c18_later() {
    let mut sc = mixed(&o(3, 4, false), false);
    let mut st = sc.mem.steps.clone();
    // the last snapshot can be without some of the particles
    let n = 4 - choose("fewer", 3);
    st[2].p.truncate(n);
    sc.samples.retain(|x| x.step < 2 || x.particle < n);
    let x = real("x", -2, 4);
    st[2].p[n - 1].pos[0] = x;
    for s in sc.samples.iter_mut().filter(|s| s.step == 2 && s.particle == n - 1) {
        s.cell = s.cell.and(cell1(x, LIM[0], N[0])).map(|i| [i, 1, 0]);
    }
    sc.mem = Mem::new(st);
    c18(sc, 1.5)
}
fn c18_long() {
    c18(long(), 0.25)
}

// ---------------------------------------------------------------- mean velocity
fn c19<T: Manager>(m: &mut T, s: &ParticleSelector) -> f64 {
    m.mean_velocity_showcase(s)
}
fn c19_stored<T: Manager>(m: &mut T, s: &ParticleSelector) -> f64 {
    m.mean_velocity(s)
}
fn c19_run(mut sc: Scene) {
    let got = c19(&mut sc.mem, &sc.sel);
    let (mut s, mut n) = (0.0, 0.0);
    for x in &sc.samples {
        if x.selected && x.window && x.vel {
            let v = sc.mem.steps[x.step].p[x.particle].vel;
            s += (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            n += 1.0;
        }
    }
    eq(got, s / n, "mean of the speeds");
    cover("done");
}
fn c19_select() {
    c19_run(select(&o(t(3), 2, false)))
}
fn c19_window() {
    c19_run(window(&o(t(4), 2, true)))
}
fn c19_gaps() {
    c19_run(gaps(&o(2, 2, true), true))
}
fn c19_values() {
    let mut sc = crowd(&o(2, 2, true));
    let m = real("mean", 0, 8);
    sc.mem.vmag = [0.0, m, 16.0];
    eq(c19_stored(&mut sc.mem, &sc.sel), m, "the stored value");
    c19_run(sc)
}

fn c19_corner() {
    c19_run(corner(true))
}
fn c19_far() {
    c19_run(far(&o(6, 3, true)))
}
fn c19_broad() {
    c19_run(broad(true))
}
fn c19_mixed() {
    c19_run(mixed(&o(2, 4, true), true))
}
fn c19_long() {
    c19_run(long())
}

// ---------------------------------------------------------------- homogeneity
fn c20(mem: &mut Mem, grid: Box<dyn GridFunctions3D>, min: f64) {
    c20_sel(mem, grid, everyone(), min)
}
fn c20_sel(mem: &mut Mem, grid: Box<dyn GridFunctions3D>, sel: ParticleSelector, min: f64) {
    let f = occupancy(mem, grid.clone(), &sel, min);
    let n = *grid.get_cells();
    let mut avg = vec![];
    for k in 0..n[2] {
        let (mut s, mut w) = (0.0, 0.0);
        for i in 0..n[0] {
            for j in 0..n[1] {
                s += f.get_data()[[i, j, k]] * f.get_weights()[[i, j, k]];
                w += f.get_weights()[[i, j, k]];
            }
        }
        if w == 0.0 {
            cover("a layer is not visited");
            continue;
        }
        avg.push(s / w);
    }
    if avg.is_empty() {
        return;
    }
    let m = avg.iter().fold(0.0, |a, b| a + b) / n[2] as f64;
    let var = avg.iter().fold(0.0, |a, b| a + (b - m) * (b - m)) / n[2] as f64;
    let h = homogeneity(mem, grid, &sel, if min == 0.0 { 0.0 } else { min });
    le(0.0, h, "never negative");
    if avg.len() < n[2] {
        // a layer that is never visited lowers the mean; whether it adds to the spread itself is left open
        let more = (n[2] - avg.len()) as f64 / n[2] as f64 * m * m;
        let e = h * h - var;
        check(e.abs() <= 1e-6 || (e - more).abs() <= 1e-6, "square of the index (with a layer that is never visited)");
        return;
    }
    eq(h * h, var, "square of the index");
    cover("done");
}
fn c20_layers() {
    let n = t(3);
    let mut steps = vec![];
    for s in 0..n {
        steps.push(Step { time: TIMES[s], p: vec![Particle::new(1, [0.25, 3.0, real(&format!("z{s}"), -8, 8)], [1.0, 0.0, 0.0])] });
    }
    c20(&mut Mem::new(steps), cart([2, 3, [2, 1][choose("layers", 2)]], LIM, true), 0.0)
}
/// concrete places, symbolic times, a minimum velocity
fn c20_more() {
    let mut steps = vec![];
    let mut time = 0.5;
    for s in 0..3 {
        let mut ps = vec![];
        for p in 0..2 {
            let z = [-4.0, 0.5, 3.5][choose(&format!("z{s}{p}"), 3)];
            ps.push(Particle::new(p + 1, [0.25 + p as f64, 3.0, z], [1.0 + 2.0 * p as f64, 0.0, 0.0]));
        }
        steps.push(Step { time, p: ps });
        time += real(&format!("d{s}"), 1, 4);
    }
    c20(&mut Mem::new(steps), cart([2, 3, 3], LIM, flag("filled")), [0.0, 2.0][choose("min", 2)])
}
fn c20_corner() {
    let mut sc = corner(false);
    let (g, sel) = (sc.grid.clone(), sc.sel);
    c20_sel(&mut sc.mem, g, sel, 0.0)
}
fn c20_select() {
    let n = choose("kind", 2);
    let mut sc = if n == 0 { select(&o(3, 4, false)) } else { window(&o(5, 3, false)) };
    let (g, sel) = (sc.grid.clone(), sc.sel);
    c20_sel(&mut sc.mem, g, sel, 0.0)
}
fn c20_cyl() {
    let mut steps = vec![];
    for s in 0..3 {
        let x = [1.25, 1.75][s % 2];
        steps.push(Step { time: TIMES[s], p: vec![Particle::new(1, [x, -1.5, real(&format!("z{s}"), -2, 4)], [1.0, 0.0, 0.0])] });
    }
    c20(&mut Mem::new(steps), cylg([2, 4, 2], [1.0, -2.0], 2.0, [-1.0, 3.0], true), 0.0)
}
/// many layers and snapshots, particles that stay in their layers and some that move on
fn c20_long() {
    let n = [2, 2, 12];
    let mut steps = vec![];
    for s in 0..40 {
        let ps = (0..7)
            .map(|p| {
                let z = if s == 38 && p == 6 { real("z", -8, 8) } else { -5.5 + ((s * (p + 1) + p) % 12) as f64 };
                Particle::new(p + 1, [0.25 + (p % 2) as f64, 1.0 + (s % 4) as f64, z], [1.0 + p as f64, 0.0, 0.0])
            })
            .collect();
        steps.push(Step { time: -1.0 + 0.5 * s as f64, p: ps });
    }
    c20(&mut Mem::new(steps), cart(n, LIM, flag("filled")), [0.0, 2.0][choose("min", 2)])
}
