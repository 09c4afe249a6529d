//! Datasets in files: what the two readers return for any order of accesses.
use crate::sym::*;
use crate::Entry;
use ndarray::prelude::*;
use upppp_rust::datamanager::{DataManager, GlobalStats, PData, TData, Timestep};

pub const FILE: &str = "data.hdf5";

/// one snapshot as it should be read
#[derive(Clone)]
pub struct Snap {
    pub time: f64,
    pub pos: Vec<[f64; 3]>,
    pub vel: Vec<[f64; 3]>,
    pub radius: Vec<f64>,
    pub id: Vec<f64>,
    pub cloud: Vec<f64>,
    pub density: Vec<f64>,
    pub ptype: Vec<f64>,
}
pub fn same(t: &Timestep, s: &Snap, what: &str) {
    let n = s.pos.len();
    let l = [t.position().len(), t.velocity().nrows(), t.radius().len(), t.particleid().len(), t.clouds().len(),
        t.density().len(), t.ptype().len()];
    if !l.iter().all(|x| *x == n) {
        check(false, &format!("{what}: number of particles {l:?} instead of {n}"));
        return;
    }
    eq(*t.time(), s.time, &format!("{what}: time"));
    for i in 0..n {
        for k in 0..3 {
            eq(t.position()[i][k], s.pos[i][k], &format!("{what}: position"));
            eq(t.velocity()[[i, k]], s.vel[i][k], &format!("{what}: velocity"));
        }
        eq(t.radius()[i], s.radius[i], &format!("{what}: radius"));
        eq(t.particleid()[i], s.id[i], &format!("{what}: identifier"));
        eq(t.clouds()[i], s.cloud[i], &format!("{what}: cloud"));
        eq(t.density()[i], s.density[i], &format!("{what}: density"));
        eq(t.ptype()[i], s.ptype[i], &format!("{what}: type"));
    }
}
fn vals(name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| real(&format!("{name}_{i}"), -8, 8)).collect()
}
fn vecs(name: &str, n: usize) -> Vec<[f64; 3]> {
    (0..n).map(|i| [0, 1, 2].map(|k| real(&format!("{name}_{i}_{k}"), -8, 8))).collect()
}
fn mat(v: &[[f64; 3]]) -> Array2<f64> {
    Array2::from_shape_vec((v.len(), 3), v.iter().flatten().copied().collect()).unwrap()
}
fn set<'a>(g: &hdf5::Group, name: &str, v: &'a [f64]) {
    g.new_dataset_builder().with_data(v).create(name).unwrap();
}
fn set2(g: &hdf5::Group, name: &str, v: &Array2<f64>) {
    g.new_dataset_builder().with_data(v).create(name).unwrap();
}
/// the attributes every dataset has; symbolic
pub struct Attrs {
    dim: Array2<f64>,
    time: [f64; 2],
    rate: f64,
    vel: Array2<f64>,
    vmag: Vec<f64>,
    times: Vec<f64>,
    n: usize,
}
fn attrs(f: &hdf5::File, particles: usize, times: Vec<f64>) -> Attrs {
    let a = Attrs {
        dim: mat(&vecs("dim", 2)),
        time: [real("t_first", 0, 64), real("t_last", 0, 64)],
        rate: real("rate", 0, 8),
        vel: mat(&vecs("stat_v", 3)),
        vmag: vals("stat_vmag", 3),
        times,
        n: particles,
    };
    f.new_attr_builder().with_data(&a.dim).create("dimensions").unwrap();
    f.new_attr::<u64>().create("particle number").unwrap().write_scalar(&particles).unwrap();
    f.new_attr::<u64>().create("timesteps").unwrap().write_scalar(&a.times.len()).unwrap();
    f.new_attr::<f64>().create("sample rate").unwrap().write_scalar(&a.rate).unwrap();
    f.new_attr_builder().with_data(&a.time).create("time").unwrap();
    f.new_attr_builder().with_data(&a.vel).create("velocity").unwrap();
    f.new_attr_builder().with_data(&a.vmag).create("velocity magnitude").unwrap();
    f.new_dataset_builder().with_data(&a.times).create("time array").unwrap();
    a
}
fn same_stats(g: &GlobalStats, a: &Attrs) {
    check(*g.nparticles() == a.n, "number of particles");
    check(*g.timesteps() == a.times.len(), "number of timesteps");
    eq(*g.min_time(), a.time[0], "first time");
    eq(*g.max_time(), a.time[1], "last time");
    eq(*g.sample_rate(), a.rate, "sample rate");
    check(g.dimensions().shape() == [2, 3] && g.velocity().shape() == [3, 3] && g.velocity_mag().len() == 3, "shapes");
    for (x, y) in g.dimensions().iter().zip(a.dim.iter()) {
        eq(*x, *y, "dimensions");
    }
    for (x, y) in g.velocity().iter().zip(a.vel.iter()) {
        eq(*x, *y, "velocity statistics");
    }
    for (x, y) in g.velocity_mag().iter().zip(a.vmag.iter()) {
        eq(*x, *y, "speed statistics");
    }
    check(g.time_array().len() == a.times.len(), "number of times");
    for (x, y) in g.time_array().iter().zip(a.times.iter()) {
        eq(*x, *y, "times");
    }
}
/// a timestep-based file: numbers of particles differ between snapshots, the density may be left out
fn tfile(n: usize, density: bool) -> (Vec<Snap>, Attrs) {
    hdf5::wipe();
    let f = hdf5::File::create(FILE).unwrap();
    let mut out = vec![];
    for i in 0..n {
        let np = 1 + (i + 1) % 2;
        let g = f.create_group(&format!("timestep {i}")).unwrap();
        let s = Snap {
            time: real(&format!("t{i}"), 0, 64),
            pos: vecs(&format!("p{i}"), np),
            vel: vecs(&format!("v{i}"), np),
            radius: vals(&format!("r{i}"), np),
            id: (0..np).map(|k| (10 * i + k) as f64).collect(),
            cloud: vals(&format!("c{i}"), np),
            density: if density { vals(&format!("d{i}"), np) } else { vec![1.0; np] },
            ptype: vals(&format!("y{i}"), np),
        };
        g.new_dataset::<f64>().create("time").unwrap().write_scalar(&s.time).unwrap();
        set2(&g, "position", &mat(&s.pos));
        set2(&g, "velocity", &mat(&s.vel));
        set(&g, "radius", &s.radius);
        let ids: Vec<u64> = s.id.iter().map(|x| *x as u64).collect();
        g.new_dataset_builder().with_data(&ids).create("id").unwrap();
        set(&g, "ppcloud", &s.cloud);
        set(&g, "particletype", &s.ptype);
        if density {
            set(&g, "density", &s.density);
        }
        out.push(s);
    }
    let a = attrs(&f, 2, out.iter().map(|s| s.time).collect());
    (out, a)
}
/// a particle-based file
fn pfile(n: usize, np: usize, density: bool) -> (Vec<Snap>, Attrs) {
    hdf5::wipe();
    let f = hdf5::File::create(FILE).unwrap();
    let times: Vec<f64> = (0..n).map(|i| real(&format!("t{i}"), 0, 64)).collect();
    let mut out: Vec<Snap> = (0..n)
        .map(|i| Snap {
            time: times[i],
            pos: vec![],
            vel: vec![],
            radius: vec![],
            id: (0..np).map(|p| p as f64).collect(),
            cloud: vec![1.0; np],
            density: vec![],
            ptype: vec![],
        })
        .collect();
    for p in 0..np {
        let g = f.create_group(&format!("particle {p}")).unwrap();
        let (pos, vel) = (vecs(&format!("p{p}"), n), vecs(&format!("v{p}"), n));
        let (r, y) = (vals(&format!("r{p}"), n), vals(&format!("y{p}"), n));
        let d = if density { vals(&format!("d{p}"), n) } else { vec![1.0; n] };
        for i in 0..n {
            out[i].pos.push(pos[i]);
            out[i].vel.push(vel[i]);
            out[i].radius.push(r[i]);
            out[i].density.push(d[i]);
            out[i].ptype.push(y[i]);
        }
        set2(&g, "position", &mat(&pos));
        set2(&g, "velocity", &mat(&vel));
        set(&g, "time", &times);
        set(&g, "radius", &r);
        set(&g, "id", &vals(&format!("i{p}"), n));
        set(&g, "ppcloud", &vec![1.0; n]);
        set(&g, "particletype", &y);
        if density {
            set(&g, "density", &d);
        }
    }
    let a = attrs(&f, np, times);
    (out, a)
}

/// any order of steps through the main buffer
fn walk_main(d: &mut dyn DataManager, s: &[Snap], len: usize) {
    let mut last = 0;
    for i in 0..len {
        let t = choose(&format!("step{i}"), s.len());
        same(d.get_timestep(t), &s[t], "buffered");
        if t < last {
            cover("backwards");
        }
        last = t;
    }
    cover("done");
}
/// any interleaving of the main buffer and of two further buffers, which may be set up again
fn walk_extra(d: &mut dyn DataManager, s: &[Snap], len: usize, stride: usize) {
    d.setup_buffer(0);
    let mut have = 1;
    for i in 0..len {
        let steps: Vec<usize> = (0..s.len()).step_by(stride).chain([s.len() - 1]).collect();
        let op = choose(&format!("op{i}"), 4);
        match op {
            3 => {
                // a further buffer, or an old one again
                let b = choose(&format!("set{i}"), (have + 1).min(2));
                d.setup_buffer(b);
                have = have.max(b + 1);
            }
            _ => {
                let t = steps[choose(&format!("step{i}"), steps.len())];
                match op {
                    0 => same(d.get_timestep(t), &s[t], "main buffer"),
                    b if b <= have => same(d.get_timestep_buffer(t, b - 1), &s[t], "further buffer"),
                    _ => stop(),
                }
            }
        }
    }
    cover(if have == 2 { "two buffers" } else { "one buffer" });
}
fn walk_single(d: &mut dyn DataManager, s: &[Snap]) {
    let a = choose("before", s.len());
    same(d.get_timestep(a), &s[a], "buffered");
    let t = choose("step", s.len());
    same(&d.get_timestep_unbuffered(t), &s[t], "unbuffered");
    same(d.get_timestep(a), &s[a], "buffered afterwards");
    cover("done");
}
fn c28_main() {
    let (s, _) = tfile([1, 2, 3, 4, 7][choose("n", 5)], flag("density"));
    walk_main(&mut TData::new(FILE), &s, if thorough() { 4 } else { 3 });
}
fn c28_extra() {
    let (s, _) = tfile(7, true);
    walk_extra(&mut TData::new(FILE), &s, if thorough() { 5 } else { 4 }, 2);
}
fn c28_single() {
    let (s, _) = tfile([1, 3, 5][choose("n", 3)], flag("density"));
    walk_single(&mut TData::new(FILE), &s);
}
fn c28_stats() {
    let (s, a) = tfile([1, 3, 4][choose("n", 3)], true);
    let mut d = TData::new(FILE);
    same_stats(&d.global_stats(), &a);
    let t = s.len() - 1;
    same(d.get_timestep(t), &s[t], "buffered");
    same_stats(&d.global_stats(), &a);
    check(catches(|| d.get_timestep(s.len()).time().to_owned()).is_err(), "a step behind the last is read");
    cover("done");
}
fn c29_main() {
    let (s, _) = pfile([1, 2, 3, 4, 7][choose("n", 5)], 1 + choose("particles", 2), flag("density"));
    walk_main(&mut PData::new(FILE), &s, if thorough() { 4 } else { 3 });
}
fn c29_extra() {
    let (s, _) = pfile(7, 2, true);
    walk_extra(&mut PData::new(FILE), &s, if thorough() { 5 } else { 4 }, 2);
}
fn c29_single() {
    let (s, _) = pfile([1, 3, 5][choose("n", 3)], 1 + choose("particles", 3), flag("density"));
    walk_single(&mut PData::new(FILE), &s);
}
fn c29_stats() {
    let (s, a) = pfile([1, 3, 4][choose("n", 3)], 2, true);
    let mut d = PData::new(FILE);
    same_stats(&d.global_stats(), &a);
    let t = s.len() - 1;
    same(d.get_timestep(t), &s[t], "buffered");
    same_stats(&d.global_stats(), &a);
    check(catches(|| d.get_timestep(s.len()).time().to_owned()).is_err(), "a step behind the last is read");
    cover("done");
}

pub const ALL: &[Entry] = &[
    ("c37_single", c37_single),
    ("c37_pair", c37_pair),
    ("c37_long", c37_long),
    ("c28_main", c28_main),
    ("c28_extra", c28_extra),
    ("c28_single", c28_single),
    ("c28_stats", c28_stats),
    ("c29_main", c29_main),
    ("c29_extra", c29_extra),
    ("c29_single", c29_single),
    ("c29_stats", c29_stats),
];

// ---------------------------------------------------------------- C37: analyses of stored datasets
use crate::scene::{cart, cylg, LIM, N};
use crate::world::{Mem, Particle, Step};
use upppp_rust::datamanager::Manager;
use upppp_rust::grid::GridFunctions3D;
use upppp_rust::{ParticleSelector, Selector};

/// a moving cloud of particles with some symbolic values; numbers of particles may vary
pub fn cloud(n: usize, np: usize, vary: bool, first_id: usize) -> Mem {
    let at = if n > 1 { choose("at", 2) * (n - 2) + 1 } else { 0 };
    let what = choose("what", 3);
    let mut steps = vec![];
    for s in 0..n {
        let here = if vary && s % 3 == 1 { np - 1 } else { np };
        let mut ps = vec![];
        for p in 0..here {
            let k = (3 * s + 5 * p) as f64;
            let mut q = Particle::new(
                first_id + p,
                [-0.5 + (k * 0.75) % 3.5, 0.25 + (k * 1.25) % 5.5, -5.5 + (k * 1.75) % 11.0],
                [0.5 + k % 3.0, 1.0 - k % 2.0, 0.25 * k - 1.0],
            );
            if s == at && p == here - 1 {
                match what {
                    0 => q.pos[0] = real("x", -2, 4),
                    1 => q.pos[2] = real("z", -7, 7),
                    _ => q.vel[1] = real("vy", -8, 8),
                }
            }
            q.radius = 0.5 + (p % 2) as f64;
            q.density = 1.5 + 0.5 * (p % 2) as f64;
            q.ptype = 1.0 + (p % 2) as f64;
            q.cloud = 1.0;
            ps.push(q);
        }
        steps.push(Step { time: 0.5 + 0.75 * s as f64 + if s > 3 { 0.25 } else { 0.0 }, p: ps });
    }
    let mut m = Mem::new(steps);
    m.sample_rate = 0.75;
    m
}
/// writes the snapshots as a timestep- or particle-based file
pub fn store(m: &Mem, particles: bool) {
    hdf5::wipe();
    let f = hdf5::File::create(FILE).unwrap();
    let st = &m.steps;
    let times: Vec<f64> = st.iter().map(|s| s.time).collect();
    if particles {
        for p in 0..m.nparticles {
            let g = f.create_group(&format!("particle {p}")).unwrap();
            set2(&g, "position", &mat(&st.iter().map(|s| s.p[p].pos).collect::<Vec<_>>()));
            set2(&g, "velocity", &mat(&st.iter().map(|s| s.p[p].vel).collect::<Vec<_>>()));
            let col = |h: &dyn Fn(&Particle) -> f64| st.iter().map(|s| h(&s.p[p])).collect::<Vec<f64>>();
            set(&g, "time", &times);
            set(&g, "radius", &col(&|q| q.radius));
            set(&g, "id", &col(&|q| q.id));
            set(&g, "ppcloud", &col(&|q| q.cloud));
            set(&g, "particletype", &col(&|q| q.ptype));
            set(&g, "density", &col(&|q| q.density));
        }
    } else {
        for (i, s) in st.iter().enumerate() {
            let g = f.create_group(&format!("timestep {i}")).unwrap();
            g.new_dataset::<f64>().create("time").unwrap().write_scalar(&s.time).unwrap();
            set2(&g, "position", &mat(&s.p.iter().map(|q| q.pos).collect::<Vec<_>>()));
            set2(&g, "velocity", &mat(&s.p.iter().map(|q| q.vel).collect::<Vec<_>>()));
            let col = |h: &dyn Fn(&Particle) -> f64| s.p.iter().map(|q| h(q)).collect::<Vec<f64>>();
            set(&g, "radius", &col(&|q| q.radius));
            let ids: Vec<u64> = s.p.iter().map(|q| q.id as u64).collect();
            g.new_dataset_builder().with_data(&ids).create("id").unwrap();
            set(&g, "ppcloud", &col(&|q| q.cloud));
            set(&g, "particletype", &col(&|q| q.ptype));
            set(&g, "density", &col(&|q| q.density));
        }
    }
    let g = m.global_stats();
    f.new_attr::<i32>().create("hdf5_up4_type").unwrap().write_scalar(&(if particles { 2i32 } else { 1i32 })).unwrap();
    f.new_attr_builder().with_data(g.dimensions()).create("dimensions").unwrap();
    f.new_attr::<u64>().create("particle number").unwrap().write_scalar(&m.nparticles).unwrap();
    f.new_attr::<u64>().create("timesteps").unwrap().write_scalar(&st.len()).unwrap();
    f.new_attr::<f64>().create("sample rate").unwrap().write_scalar(&m.sample_rate).unwrap();
    f.new_attr_builder().with_data(&[times[0], times[times.len() - 1]]).create("time").unwrap();
    f.new_attr_builder().with_data(g.velocity()).create("velocity").unwrap();
    f.new_attr_builder().with_data(g.velocity_mag()).create("velocity magnitude").unwrap();
    f.new_dataset_builder().with_data(&times).create("time array").unwrap();
}
fn grids(g: Vec<Box<dyn GridFunctions3D>>) -> Vec<f64> {
    g.iter().flat_map(|g| g.get_data().iter().chain(g.get_weights().iter()).copied().collect::<Vec<_>>()).collect()
}
pub const ANALYSES: usize = 16;
/// all numbers of the result of one analysis
pub fn analyse<T: Manager + ?Sized>(m: &mut T, k: usize, g: Box<dyn GridFunctions3D>, s: &ParticleSelector, id: usize) -> Vec<f64> {
    match k {
        0 => grids(m.vectorfield(g, s).data.to_vec()),
        1 => grids(vec![m.velocityfield(g, s, "absolute", -1.0, 99.0)]),
        2 => grids(vec![m.numberfield(g, s)]),
        3 => grids(vec![m.occupancyfield(g, s, 1.0)]),
        4 => vec![m.mean_velocity(s)],
        5 => {
            let (g, x) = m.dispersion(g, s, 0.75);
            let mut v = grids(vec![g]);
            v.push(x);
            v
        }
        6 => {
            let (h, b) = m.histogram(g, s, "velocity", 0.0, 3);
            h.iter().chain(b.iter()).copied().collect()
        }
        7 => grids(vec![m.granular_temperature_field(g, s, "xyz")]),
        8 => {
            let (t, x) = m.lacey_mixing(g, s, 1, 2, 0);
            t.iter().chain(x.iter()).copied().collect()
        }
        9 => m.circulation_time(s, 2, 0.25),
        10 => m.circulation_time_two_boundary(s, 2, (-0.75, 0.25)).iter().flat_map(|x| [x.0, x.1]).collect(),
        11 => grids(vec![m.concentration_field(g, s, 1, 2)]),
        12 => vec![m.homogenity_index(g, s, 0.0)],
        13 => grids(vec![m.msd_field(g, s, 1.5)]),
        14 => {
            let (a, b) = m.msd(g, s, 0.0, 1.5, 3);
            a.iter().chain(b.iter()).copied().collect()
        }
        _ => m.extract(id, (1, 6)).iter().copied().collect(),
    }
}
fn stored(n: usize, np: usize, runs: usize) {
    let particles = flag("particles");
    let mut m = cloud(n, np, !particles && flag("vary"), if particles { 0 } else { 1 });
    store(&m, particles);
    let mut d: Box<dyn Manager> = if particles { Box::new(PData::new(FILE)) } else { Box::new(TData::new(FILE)) };
    let g = if flag("cyl") { cylg([2, 4, 2], [1.0, 2.5], 3.0, [-6.0, 6.0], false) } else { cart(N, LIM, false) };
    let mut s = ParticleSelector::default();
    if flag("window") {
        s.set_time(1.0, 4.0);
    }
    let mut used = vec![];
    for r in 0..runs {
        let k = choose(&format!("run{r}"), ANALYSES);
        used.push(k);
        let id = 1;
        let a = catches(|| analyse(&mut m, k, g.clone(), &s, id));
        let b = catches(|| analyse(d.as_mut(), k, g.clone(), &s, id));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                cover("compared");
                check(a.len() == b.len(), "size of the result");
                for (x, y) in a.iter().zip(&b) {
                    eq(*y, *x, &format!("result of analysis {k} of a stored dataset"));
                }
            }
            (Err(()), Err(())) => cover("refused"),
            _ => check(false, "stored and other data are not treated alike"),
        }
    }
}
fn c37_single() {
    stored(7, 3, 1);
}
fn c37_pair() {
    stored(5, 2, 2);
}
fn c37_long() {
    stored(40, 2, 1);
}
