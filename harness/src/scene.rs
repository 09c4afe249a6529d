//! Datasets with symbolic parts for the field harnesses, together with what each sample should
//! count for: `Sample { step, particle, cell, selected, window, vel }`.
use crate::sym::*;
use crate::world::*;
use ndarray::prelude::*;
use upppp_rust::grid::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D};
use upppp_rust::ParticleSelector;

pub type Cell = [usize; 3];

pub struct Sample {
    pub step: usize,
    pub particle: usize,
    /// cell of the position; None outside the grid or without a position
    pub cell: Option<Cell>,
    /// accepted by the selector's criteria
    pub selected: bool,
    /// the step is in the time window
    pub window: bool,
    /// all velocity components are defined
    pub vel: bool,
}
impl Sample {
    pub fn counts(&self) -> bool {
        self.cell.is_some() && self.selected && self.window
    }
}

pub struct Scene {
    pub mem: Mem,
    pub sel: ParticleSelector,
    pub grid: Box<dyn GridFunctions3D>,
    pub cells: Cell,
    pub samples: Vec<Sample>,
    /// relative position to the axis of a cylindrical grid
    pub rel: Vec<Vec<[f64; 2]>>,
}

pub const LIM: [[f64; 2]; 3] = [[-1.0, 3.0], [0.0, 6.0], [-6.0, 6.0]];
pub const N: Cell = [2, 3, 2];
/// y and z of the particles, with their cells along these axes
const YZ: [([f64; 2], [usize; 2]); 4] =
    [([1.0, -3.0], [0, 0]), ([3.0, 3.0], [1, 1]), ([5.5, -2.0], [2, 0]), ([2.5, 1.0], [1, 1])];
pub const TIMES: [f64; 6] = [0.5, 1.0, 2.5, 3.0, 5.0, 5.5];

pub fn cart(n: Cell, lim: [[f64; 2]; 3], filled: bool) -> Box<dyn GridFunctions3D> {
    let mut g: Box<dyn GridFunctions3D> = Box::new(CartesianGrid3D::new(n, Dim::ThreeD(lim)));
    if filled {
        fill(g.as_mut());
    }
    g
}
pub fn cylg(n: Cell, c: [f64; 2], r: f64, z: [f64; 2], filled: bool) -> Box<dyn GridFunctions3D> {
    let mut g: Box<dyn GridFunctions3D> = Box::new(CylindricalGrid3D::new(
        n,
        Dim::ThreeD([[c[0] - r, c[0] + r], [c[1] - r, c[1] + r], z]),
        "volume",
    ));
    if filled {
        fill(g.as_mut());
    }
    g
}
/// as a grid that was used before
pub fn fill(g: &mut dyn GridFunctions3D) {
    let n = *g.get_cells();
    g.set_data(Array3::from_shape_fn(n, |(i, j, k)| 1.0 + (i + 3 * j + 7 * k) as f64));
    g.set_weights(Array3::from_shape_fn(n, |(i, j, k)| 2.0 + (2 * i + 5 * j + k) as f64));
}
/// cell of a coordinate along one axis (faces belong to the upper cell, the last one to the last)
pub fn cell1(x: f64, lim: [f64; 2], n: usize) -> Option<usize> {
    if !(x >= lim[0] && x <= lim[1]) {
        return None;
    }
    let w = (lim[1] - lim[0]) / n as f64;
    for i in 1..n {
        if x < lim[0] + w * i as f64 {
            return Some(i - 1);
        }
    }
    Some(n - 1)
}

pub fn everyone() -> ParticleSelector {
    ParticleSelector::default()
}
fn vel(s: usize, p: usize) -> [f64; 3] {
    [real(&format!("vx{s}{p}"), -8, 8), real(&format!("vy{s}{p}"), -8, 8), real(&format!("vz{s}{p}"), -8, 8)]
}
/// concrete, pairwise different velocities
fn cvel(s: usize, p: usize) -> [f64; 3] {
    [1.0 + s as f64 - 2.5 * p as f64, 0.5 * (p as f64) - 0.25 * s as f64, 2.0 - 0.75 * (s + 2 * p) as f64]
}

pub struct Opt {
    pub steps: usize,
    pub parts: usize,
    /// velocities symbolic
    pub symvel: bool,
}

/// positions anywhere along x (both cells, both sides outside)
pub fn place(o: &Opt) -> Scene {
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        for p in 0..o.parts {
            let x = real(&format!("x{s}{p}"), -2, 4);
            let (yz, c) = YZ[if o.parts > 1 { p } else { s % 2 }];
            ps.push(Particle::new(p + 1, [x, yz[0], yz[1]], if o.symvel { vel(s, p) } else { cvel(s, p) }));
            samples.push(Sample {
                step: s,
                particle: p,
                cell: cell1(x, LIM[0], N[0]).map(|i| [i, c[0], c[1]]),
                selected: true,
                window: true,
                vel: true,
            });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    Scene { mem: Mem::new(steps), sel: everyone(), grid: cart(N, LIM, true), cells: N, samples, rel: vec![] }
}

/// all samples in two neighbouring cells, several per cell; one of the axes decides the cell
pub fn crowd(o: &Opt) -> Scene {
    let axis = choose("axis", 3);
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        for p in 0..o.parts {
            let hi = flag(&format!("hi{s}{p}"));
            let mut pos = [0.25, 3.0, -1.5];
            let mut c = [0, 1, 0];
            pos[axis] = [[0.25, 1.75], [0.5, 3.5], [-0.5, 4.0]][axis][hi as usize];
            c[axis] = [[0, 1], [0, 1], [0, 1]][axis][hi as usize];
            ps.push(Particle::new(p + 1, pos, if o.symvel { vel(s, p) } else { cvel(s, p) }));
            samples.push(Sample { step: s, particle: p, cell: Some(c), selected: true, window: true, vel: true });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    Scene { mem: Mem::new(steps), sel: everyone(), grid: cart(N, LIM, true), cells: N, samples, rel: vec![] }
}

fn within(x: f64, c: &[f64]) -> bool {
    match c.len() {
        1 => x == c[0],
        2 => x >= c[0] && x <= c[1],
        _ => c.iter().any(|v| *v == x),
    }
}

/// one criterion of the selector with symbolic bounds, the others with accepting bounds
pub fn select(o: &Opt) -> Scene {
    let crit = choose("criterion", 4);
    let (lo, hi) = if crit < 3 { (real("lo", 0, 6), real("hi", 0, 6)) } else { (0.0, 0.0) };
    let mut b: Vec<Vec<f64>> = vec![vec![0.125, 60.0]; 3];
    let mut ids = vec![1, 90];
    if crit < 3 {
        b[crit] = vec![lo, hi];
    } else {
        ids = [vec![0], vec![2], vec![1], vec![2, 3], vec![1, 3, 7]][choose("ids", 5)].clone();
    }
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        for p in 0..o.parts {
            let (yz, c) = YZ[p];
            let x = [0.25, 2.0][(s + p) % 2];
            let mut q = Particle::new(p + 1, [x, yz[0], yz[1]], if o.symvel { vel(s, p) } else { cvel(s, p) });
            // all values different, also between the steps
            q.radius = 0.5 + 1.5 * p as f64 + 0.125 * s as f64;
            q.cloud = 4.5 - 1.75 * p as f64 + 0.25 * s as f64;
            q.density = 1.25 + 2.25 * p as f64 - 0.375 * s as f64;
            let ok = within(q.radius, &b[0])
                && within(q.cloud, &b[1])
                && within(q.density, &b[2])
                && (ids[0] == 0
                    || match ids.len() {
                        1 => p + 1 == ids[0],
                        2 => p + 1 >= ids[0] && p + 1 <= ids[1],
                        _ => ids.contains(&(p + 1)),
                    });
            samples.push(Sample {
                step: s,
                particle: p,
                cell: Some([if x < 1.0 { 0 } else { 1 }, c[0], c[1]]),
                selected: ok,
                window: true,
                vel: true,
            });
            ps.push(q);
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    let sel = ParticleSelector::new((f64::MIN, f64::MAX), b[0].clone(), b[1].clone(), b[2].clone(), ids);
    Scene { mem: Mem::new(steps), sel, grid: cart(N, LIM, false), cells: N, samples, rel: vec![] }
}

/// a time window with symbolic ends
pub fn window(o: &Opt) -> Scene {
    let (a, b) = (real("from", 0, 7), real("to", 0, 7));
    let mut sel = everyone();
    sel.time = (a, b);
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        let ok = TIMES[s] >= a && TIMES[s] <= b;
        for p in 0..o.parts {
            let (yz, c) = YZ[p];
            let x = [0.25, 2.0, 2.5][(s + p) % 3];
            ps.push(Particle::new(p + 1, [x, yz[0], yz[1]], if o.symvel { vel(s, p) } else { cvel(s, p) }));
            samples.push(Sample {
                step: s,
                particle: p,
                cell: Some([if x < 1.0 { 0 } else { 1 }, c[0], c[1]]),
                selected: true,
                window: ok,
                vel: true,
            });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    Scene { mem: Mem::new(steps), sel, grid: cart(N, LIM, false), cells: N, samples, rel: vec![] }
}

/// undefined positions and velocities, and snapshots with different numbers of particles
pub fn gaps(o: &Opt, nanvel: bool) -> Scene {
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        let np = if choose(&format!("few{s}"), 2) == 1 { o.parts - 1 } else { o.parts };
        for p in 0..np {
            let (yz, c) = YZ[p];
            let x = [0.25, 2.0][(s + p) % 2];
            let mut pos = [x, yz[0], yz[1]];
            let mut v = if o.symvel { vel(s, p) } else { cvel(s, p) };
            let mut cell = Some([if x < 1.0 { 0 } else { 1 }, c[0], c[1]]);
            let mut hasvel = true;
            match choose(&format!("gap{s}{p}"), if nanvel { 5 } else { 3 }) {
                1 => {
                    pos = [NAN; 3];
                    cell = None;
                }
                2 => {
                    pos[(s + p) % 3] = NAN;
                    cell = None;
                }
                3 => {
                    v = [NAN; 3];
                    hasvel = false;
                }
                4 => {
                    v[(s + 2 * p) % 3] = NAN;
                    hasvel = false;
                }
                _ => (),
            }
            ps.push(Particle::new(p + 1, pos, v));
            samples.push(Sample { step: s, particle: p, cell, selected: true, window: true, vel: hasvel });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    Scene { mem: Mem::new(steps), sel: everyone(), grid: cart(N, LIM, false), cells: N, samples, rel: vec![] }
}

/// a cylindrical grid: one particle at the chosen place relative to a symbolic axis
pub fn cylinder(o: &Opt) -> Scene {
    // relative positions with ring (r = 2, edge of the rings at r^2 = 2) and sector (4 quarters)
    const REL: [([f64; 2], Option<[usize; 2]>); 8] = [
        ([0.5, 0.5], Some([0, 2])),
        ([-0.75, 0.25], Some([0, 3])),
        ([-1.0, -1.25], Some([1, 0])),
        ([0.25, -1.5], Some([1, 1])),
        ([1.5, 0.5], Some([1, 2])),
        ([1.75, 1.75], None),
        ([-2.25, 0.25], None),
        ([0.25, -0.25], Some([0, 1])),
    ];
    let c = [real("cx", -4, 4), real("cy", -4, 4)];
    let cells = [2, 4, 2];
    let mut steps = vec![];
    let mut samples = vec![];
    let mut rel = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        let mut rs = vec![];
        for p in 0..o.parts {
            let i = if p == 0 { choose(&format!("at{s}{p}"), REL.len()) } else { (2 * s + 4) % REL.len() };
            let (d, rc) = REL[i];
            let (z, k) = [(0.5, 0), (2.25, 1)][(s + p) % 2];
            ps.push(Particle::new(p + 1, [c[0] + d[0], c[1] + d[1], z], if o.symvel { vel(s, p) } else { cvel(s, p) }));
            rs.push(d);
            samples.push(Sample {
                step: s,
                particle: p,
                cell: rc.map(|r| [r[0], r[1], k]),
                selected: true,
                window: true,
                vel: true,
            });
        }
        rel.push(rs);
        steps.push(Step { time: TIMES[s], p: ps });
    }
    let grid = cylg(cells, c, 2.0, [-1.0, 3.0], true);
    Scene { mem: Mem::new(steps), sel: everyone(), grid, cells, samples, rel }
}

/// many particles in many cells of a grid without equal axes; one coordinate symbolic, changing numbers of
/// particles, undefined values and a selector at the same time
pub fn broad(nanvel: bool) -> Scene {
    const LIMB: [[f64; 2]; 3] = [[-3.0, 3.0], [1.0, 5.0], [-2.0, 10.0]];
    const NB: Cell = [3, 2, 4];
    const SPOTS: [([f64; 3], Cell); 5] = [
        ([-2.25, 1.5, -1.0], [0, 0, 0]),
        ([1.5, 4.5, 8.0], [2, 1, 3]),
        ([0.25, 1.25, 9.5], [1, 0, 3]),
        ([2.75, 2.75, 4.5], [2, 0, 2]),
        ([-0.5, 3.25, 1.25], [1, 1, 1]),
    ];
    let (ss, sp) = [(0, 4), (1, 2), (3, 3)][choose("where", 3)];
    let axis = choose("axis", 3);
    let free = real("free", -4, 11);
    let which = choose("selector", 4);
    // the first snapshot after, at, or before time zero
    let t0 = [0.0, -0.5, -4.25][axis];
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..4 {
        let mut ps = vec![];
        for p in 0..if s == 2 { 4 } else { 5 } {
            let (mut pos, c) = SPOTS[(p * s + p + s) % 5];
            let mut cell = Some(c);
            if (s, p) == (ss, sp) {
                pos[axis] = free;
                cell = cell1(free, LIMB[axis], NB[axis]).map(|i| {
                    let mut c = c;
                    c[axis] = i;
                    c
                });
            }
            if (s, p) == (2, 0) {
                pos = [NAN; 3];
                cell = None;
            }
            let mut v = cvel(s, p);
            if p == 3 {
                v = vel(s, p);
            }
            let has = !(nanvel && (s, p) == (1, 1));
            if !has {
                v = [NAN; 3];
            }
            let mut q = Particle::new(p + 1, pos, v);
            q.radius = 0.5 + 0.25 * p as f64;
            q.cloud = 7.0 - p as f64;
            q.density = [3.0, 1.0, 2.0, 5.0, 4.0][p];
            if which == 0 {
                // without criteria, no attribute matters: not even one that is zero, negative or undefined
                q.radius = [0.0, -2.0, NAN, 1e12, 0.5][(p + s) % 5];
                q.cloud = [NAN, 0.0, 0.5, -1.0, 2.5][(p + 2 * s) % 5];
                q.density = [-3.0, 1.5, 0.0, NAN, -1.0][(p + 3 * s) % 5];
            }
            let selected = match which {
                0 => true,
                1 => p != 4,
                2 => p == 1 || p == 4,
                _ => [4, 1, 2].contains(&p),
            };
            let window = which != 2 || s > 0;
            ps.push(q);
            samples.push(Sample { step: s, particle: p, cell, selected, window, vel: has });
        }
        steps.push(Step { time: t0 + TIMES[s], p: ps });
    }
    let any = || vec![-1.0];
    let sel = match which {
        0 => everyone(),
        1 => ParticleSelector::new((t0, t0 + 9.0), vec![0.5, 1.25], any(), any(), vec![0]),
        2 => ParticleSelector::new((t0 + 0.75, t0 + 9.0), any(), vec![6.0, 3.0, 6.5], any(), vec![2, 5]),
        _ => ParticleSelector::new((t0, t0 + 9.0), any(), any(), vec![1.0, 5.0], vec![5, 2, 3]),
    };
    let sc = Scene { mem: Mem::new(steps), sel, grid: cart(NB, LIMB, true), cells: NB, samples, rel: vec![] };
    sc
}

/// grids off the origin (all limits negative, far away, ending at zero), also with single cells along an axis;
/// particles that share an identifier, are counted from zero, or have large identifiers; partly undefined
/// velocities; one coordinate symbolic
pub fn corner(nanvel: bool) -> Scene {
    let at = choose("place", 3);
    let lim = [
        [[-9.0, -5.0], [-4.0, -1.0], [-8.0, -2.0]],
        [[100.0, 104.0], [20.0, 23.0], [50.0, 56.0]],
        [[-4.0, 0.0], [-3.0, 0.0], [-6.0, 0.0]],
    ][at];
    let n: Cell = [[1, 2, 3], [4, 1, 1], [1, 1, 2]][at];
    let axis = choose("axis", 3);
    let late = choose("late", 2);
    let kind = choose("ids", 4);
    let id = |p: usize| match kind {
        0 => 7,
        1 => p,
        2 => [65536 + 3, 3, 131072 + 1][p],
        _ => [1 << 33, 40, 300][p],
    };
    let free = real("free", 0, 8);
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..3 {
        let mut ps = vec![];
        for p in 0..3 {
            let mut pos = [0.0; 3];
            for k in 0..3 {
                pos[k] = lim[k][0] + (lim[k][1] - lim[k][0]) * [0.125, 0.625, 0.9375, 0.4375][(s + (k + 1) * p) % 4];
            }
            if s == 2 * late && p == 2 {
                pos[axis] = lim[axis][0] - 1.0 + free;
            }
            let mut c = [0; 3];
            let mut cell = Some(c);
            for k in 0..3 {
                match cell1(pos[k], lim[k], n[k]) {
                    Some(i) => c[k] = i,
                    None => cell = None,
                }
            }
            let cell = cell.map(|_| c);
            let mut v = cvel(s, p);
            let has = !(nanvel && s == 1 && p < 2);
            if !has {
                v[(axis + p) % 3] = NAN;
            }
            ps.push(Particle::new(id(p), pos, v));
            let selected = match kind {
                2 => id(p) == 3 || id(p) == 131073,
                3 => id(p) >= 40 && id(p) <= 1 << 33,
                _ => true,
            };
            samples.push(Sample { step: s, particle: p, cell, selected, window: true, vel: has });
        }
        steps.push(Step { time: [-3.0, -1.5, 0.0][s] + 2.0 * at as f64, p: ps });
    }
    let any = || vec![-1.0];
    let ids = match kind {
        0 => vec![7],
        2 => vec![3, 131073, 131073],
        3 => vec![40, 1 << 33],
        _ => vec![0],
    };
    let sel = ParticleSelector::new((-8.0, 99.0), any(), any(), any(), ids);
    Scene { mem: Mem::new(steps), sel, grid: cart(n, lim, true), cells: n, samples, rel: vec![] }
}

/// more samples than any of the other scenes (more than 256 snapshots in one, particles per snapshot in
/// another), most of them in one cell; one late sample anywhere along one axis, with a symbolic velocity
pub fn long() -> Scene {
    const LIML: [[f64; 2]; 3] = [[-3.0, 3.0], [1.0, 5.0], [-2.0, 10.0]];
    const NL: Cell = [3, 2, 4];
    const SPOTS: [([f64; 3], Cell); 4] =
        [([-2.25, 1.5, -1.0], [0, 0, 0]), ([2.75, 2.75, 4.5], [2, 0, 2]), ([1.5, 4.5, 8.0], [2, 1, 3]), ([-0.5, 3.25, 1.25], [1, 1, 1])];
    let (ns, np) = if flag("deep") { (261, 2) } else { (2, 263) };
    let late = (ns - 1 - choose("step", 2), np - 1 - choose("particle", 2));
    let axis = choose("axis", 3);
    let free = real("free", -4, 11);
    let ids = flag("ids");
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..ns {
        let mut ps = vec![];
        for p in 0..np {
            let (mut pos, c) = SPOTS[if (s + p) % 9 == 0 { (s / 2 + p / 9) % 4 } else { 2 }];
            let mut cell = Some(c);
            pos[0] += 0.125 * ((s + 2 * p) % 3) as f64;
            let mut v = [1.0 + 0.25 * (s % 5) as f64 - 0.125 * (p % 7) as f64, 0.5 * ((p + s) % 4) as f64, 2.0 - 0.25 * (s % 3) as f64];
            if (s, p) == late {
                pos[axis] = free;
                cell = cell1(free, LIML[axis], NL[axis]).map(|i| {
                    let mut c = c;
                    c[axis] = i;
                    c
                });
                v = vel(s, p);
            }
            ps.push(Particle::new(p + 1, pos, v));
            let selected = !ids || (p >= 1 && p + 1 <= 262);
            samples.push(Sample { step: s, particle: p, cell, selected, window: true, vel: true });
        }
        steps.push(Step { time: -2.0 + 0.25 * s as f64, p: ps });
    }
    let mut sel = everyone();
    if ids {
        sel = ParticleSelector::new((-4.0, 99.0), vec![-1.0], vec![-1.0], vec![-1.0], vec![2, 262]);
    }
    Scene { mem: Mem::new(steps), sel, grid: cart(NL, LIML, true), cells: NL, samples, rel: vec![] }
}

/// the row in another snapshot of the particle in the given row (same identifier; the n-th row of a shared one)
pub fn row_in(st: &[Step], step: usize, row: usize, other: usize) -> Option<usize> {
    let id = st[step].p[row].id;
    let n = st[step].p[..row].iter().filter(|q| q.id == id).count();
    st[other].p.iter().enumerate().filter(|(_, q)| q.id == id).map(|(i, _)| i).nth(n)
}
/// particles that come and go, so that the others change their rows (kept in order or reversed); one position
/// of one that stays is anywhere along one axis
pub fn shift(o: &Opt) -> Scene {
    let gone = choose("gone", 3);
    let when = choose("when", 5);
    let reversed = flag("reversed");
    let axis = choose("axis", 3);
    let free = real("free", -16, 16);
    let ids = [3usize, 5, 8, 70001];
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..5 {
        let mut ps = vec![];
        for p in 0..4 {
            let absent = match when {
                0 => s == 0,
                1 => s == 2,
                2 => s > 2,
                3 => s % 2 == 1,
                _ => false,
            };
            if p == gone && absent || p == 2 && gone == 0 && s == 3 {
                continue;
            }
            let mut pos = [-0.5 + p as f64, 1.0 + ((s + p) % 3) as f64 * 2.0, if (s + p) % 2 == 0 { -3.0 } else { 2.5 }];
            if (s, p) == (2, 3) {
                pos[axis] = free;
            }
            ps.push(Particle::new(ids[p], pos, if o.symvel { vel(s, p) } else { cvel(s, p) }));
        }
        if reversed && s % 2 == 1 {
            ps.reverse();
        }
        for (row, q) in ps.iter().enumerate() {
            let mut c = [0; 3];
            let mut cell = Some(c);
            for k in 0..3 {
                match cell1(q.pos[k], LIM[k], N[k]) {
                    Some(i) => c[k] = i,
                    None => cell = None,
                }
            }
            samples.push(Sample { step: s, particle: row, cell: cell.map(|_| c), selected: true, window: true, vel: true });
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    Scene { mem: Mem::new(steps), sel: everyone(), grid: cart(N, LIM, true), cells: N, samples, rel: vec![] }
}

/// far out and late: a grid of 40 km, times of hours that no f32 holds (a window that ends at two of them), a
/// snapshot without any particle, particles at the origin and on an axis; one sample anywhere along one axis
pub fn far(o: &Opt) -> Scene {
    const LIMF: [[f64; 2]; 3] = [[-20000.0, 20000.0], [-12.0, 12.0], [-3.0, 5.0]];
    const NF: Cell = [4, 3, 2];
    const SPOTS: [[f64; 3]; 5] = [[0.0, 0.0, 0.0], [15000.0, 0.0, 0.0], [-15000.0, 11.0, 4.5], [0.0, -0.5, 0.0], [3.0, 0.0, 4.0]];
    const TIMESF: [f64; 6] = [-0.3, 0.7, 1234.567, 2000.9, 5000.3, 20000.3];
    let empty = 1 + choose("empty", 3);
    let axis = choose("axis", 3);
    let free = real("free", -16, 16);
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..6 {
        let mut ps = vec![];
        for p in 0..if s == empty { 0 } else { 3 } {
            let mut pos = SPOTS[(s + 2 * p) % 5];
            if (s, p) == (4, 1) {
                pos[axis] = free;
            }
            let mut c = [0; 3];
            let mut cell = Some(c);
            for k in 0..3 {
                match cell1(pos[k], LIMF[k], NF[k]) {
                    Some(i) => c[k] = i,
                    None => cell = None,
                }
            }
            let cell = cell.map(|_| c);
            let mut v = if o.symvel && (s, p) == (4, 1) { vel(s, p) } else { cvel(s, p) };
            if s == 5 {
                v = [v[0] + 1234.567, v[1] - 987.654, v[2] + 4321.123];
            }
            ps.push(Particle::new(p + 1, pos, v));
            samples.push(Sample { step: s, particle: p, cell, selected: true, window: s > 0, vel: true });
        }
        steps.push(Step { time: TIMESF[s], p: ps });
    }
    let mut sel = everyone();
    sel.time = (TIMESF[1], TIMESF[5]);
    Scene { mem: Mem::new(steps), sel, grid: cart(NF, LIMF, true), cells: NF, samples, rel: vec![] }
}

/// four particles in one cell; the first two can each be without position, outside, refused by a criterion, or
/// without velocity, in each snapshot anew; the later ones count always (the last with a symbolic velocity)
pub fn mixed(o: &Opt, nanvel: bool) -> Scene {
    let first = choose("first", if nanvel { 5 } else { 4 });
    let second = choose("second", if nanvel { 5 } else { 4 });
    let late = choose("late", o.steps);
    let mut steps = vec![];
    let mut samples = vec![];
    for s in 0..o.steps {
        let mut ps = vec![];
        for p in 0..4 {
            let mut q = Particle::new(p + 1, [0.25, 3.0, -1.5 + 0.25 * p as f64], cvel(s, p));
            if p == 3 && o.symvel {
                q.vel = vel(s, p);
            }
            let mut x = Sample { step: s, particle: p, cell: Some([0, 1, 0]), selected: true, window: true, vel: true };
            let why = match p {
                0 => first,
                1 if s >= late => second,
                _ => 0,
            };
            match why {
                1 => {
                    q.pos = [NAN; 3];
                    x.cell = None;
                }
                2 => {
                    q.pos[s % 3] = -20.0;
                    x.cell = None;
                }
                3 => {
                    q.radius = 9.0;
                    x.selected = false;
                }
                4 => {
                    q.vel = [NAN; 3];
                    x.vel = false;
                }
                _ => (),
            }
            ps.push(q);
            samples.push(x);
        }
        steps.push(Step { time: TIMES[s], p: ps });
    }
    let any = || vec![-1.0];
    let sel = ParticleSelector::new((f64::MIN, f64::MAX), vec![0.125, 5.0], any(), any(), vec![0]);
    Scene { mem: Mem::new(steps), sel, grid: cart(N, LIM, true), cells: N, samples, rel: vec![] }
}

impl Scene {
    /// sum over the samples that count of f, per cell, together with their number
    pub fn sums(&self, f: impl Fn(&Particle, &Sample) -> Option<f64>) -> (Array3<f64>, Array3<f64>) {
        let mut s = Array3::<f64>::zeros(self.cells);
        let mut n = Array3::<f64>::zeros(self.cells);
        for x in &self.samples {
            if !x.counts() {
                continue;
            }
            if let Some(v) = f(&self.mem.steps[x.step].p[x.particle], x) {
                let c = x.cell.unwrap();
                s[c] += v;
                n[c] += 1.0;
            }
        }
        (s, n)
    }
}
pub fn expect(g: &dyn GridFunctions3D, d: &Array3<f64>, w: &Array3<f64>, msg: &str) {
    check(g.get_data().shape() == d.shape() && g.get_weights().shape() == w.shape(), &format!("{msg}: shape"));
    for ((i, a), b) in g.get_data().indexed_iter().zip(d.iter()) {
        eq(*a, *b, &format!("{msg}: value of cell {i:?}"));
    }
    for ((i, a), b) in g.get_weights().indexed_iter().zip(w.iter()) {
        eq(*a, *b, &format!("{msg}: weight of cell {i:?}"));
    }
}
