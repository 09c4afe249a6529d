//! Conversion of VTK and CSV files into datasets: what is read back from the converted file.
use crate::h_data::{same, Snap};
use crate::sym::*;
use crate::Entry;
use std::path::PathBuf;
use upppp_rust::converter::{csv_converter, csv_multi_converter, csv_multi_file_time_step, LegacyVTKConverter, VTKType, XMLVTKConverter};
use upppp_rust::datamanager::{DataManager, GlobalStats, PData, TData};
use vtkio::model::*;

pub const OUT: &str = "converted.hdf5";
/// a scratch folder of this process
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        hdf5::wipe();
        vtkio::model::wipe();
        ndarray_csv::wipe();
        let p = std::env::temp_dir().join(format!("up4_conv_{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    pub fn write(&self, name: &str, text: &str) -> String {
        let f = self.file(name);
        std::fs::write(&f, text).unwrap();
        f
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Clone)]
pub struct Part {
    pub id: u64,
    pub pos: [f64; 3],
    pub vel: [f64; 3],
    pub radius: f64,
    pub ty: u64,
}
/// kinds of VTK files
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Legacy,
    Poly,
    Unstructured,
}
const KINDS: [Kind; 3] = [Kind::Legacy, Kind::Poly, Kind::Unstructured];
fn buffers(p: &[Part], diameter: bool) -> (IOBuffer, Vec<(&'static str, IOBuffer)>) {
    let f = |g: &dyn Fn(&Part) -> Vec<f64>| IOBuffer::F64(p.iter().flat_map(|x| g(x)).collect());
    (
        f(&|x| x.pos.to_vec()),
        vec![
            ("force", f(&|_| vec![77.0, 78.0, 79.0])),
            ("type", IOBuffer::I32(p.iter().map(|x| x.ty as i32).collect())),
            ("v", f(&|x| x.vel.to_vec())),
            ("mass", f(&|_| vec![99.0])),
            ("id", IOBuffer::U64(p.iter().map(|x| x.id).collect())),
            ("size", f(&|x| vec![if diameter { 2.0 * x.radius } else { x.radius }])),
        ],
    )
}
fn put_vtk(name: &str, parts: &[Part], kind: Kind, diameter: bool, split: usize) {
    if kind == Kind::Legacy {
        let (points, arrays) = buffers(parts, diameter);
        let data_array = arrays.into_iter().map(|(n, data)| FieldArray { name: n.into(), elem: 1, data }).collect();
        let point = vec![Attribute::Field { name: "FieldData".into(), data_array }];
        let p = PolyDataPiece { points, data: Attributes { point, cell: vec![] } };
        return put(name, DataSet::PolyData { meta: None, pieces: vec![Piece(p)] });
    }
    let mut pieces = vec![];
    for part in [&parts[..split], &parts[split..]] {
        let (points, arrays) = buffers(part, diameter);
        let point = arrays
            .into_iter()
            .map(|(n, data)| Attribute::DataArray(DataArray { name: n.into(), elem: ElementType::Scalars, data }))
            .collect();
        pieces.push(Piece(PolyDataPiece { points, data: Attributes { point, cell: vec![] } }));
    }
    put(name, match kind {
        Kind::Poly => DataSet::PolyData { meta: None, pieces },
        _ => DataSet::UnstructuredGrid { meta: None, pieces },
    });
}
/// what is read back for particles that were stored in any order
pub fn snap(time: f64, parts: &[Part], typed: bool) -> Snap {
    let mut p: Vec<Part> = parts.to_vec();
    p.sort_by_key(|x| x.id);
    Snap {
        time,
        pos: p.iter().map(|x| x.pos).collect(),
        vel: p.iter().map(|x| x.vel).collect(),
        radius: p.iter().map(|x| x.radius).collect(),
        id: p.iter().map(|x| x.id as f64).collect(),
        cloud: vec![1.0; p.len()],
        density: vec![1.0; p.len()],
        ptype: p.iter().map(|x| if typed { x.ty as f64 } else { 1.0 }).collect(),
    }
}
struct Conv {
    kind: Kind,
    diameter: bool,
    typed: bool,
}
impl Conv {
    fn any() -> Conv {
        Conv { kind: KINDS[choose("kind", 3)], diameter: flag("diameter"), typed: flag("typed") }
    }
    fn ext(&self) -> &'static str {
        match self.kind {
            Kind::Legacy => "vtk",
            Kind::Poly => "vtp",
            Kind::Unstructured => "vtu",
        }
    }
    fn legacy(&self) -> LegacyVTKConverter {
        let c = LegacyVTKConverter::new().add_velocity_field("v").add_id_field("id");
        let c = if self.diameter { c.add_diameter_field("size") } else { c.add_radius_field("size") };
        if self.typed { c.add_type_field("type") } else { c }
    }
    fn xml(&self) -> XMLVTKConverter {
        let t = if self.kind == Kind::Poly { VTKType::PolyData } else { VTKType::UnstructuredGrid };
        let c = XMLVTKConverter::new(t).add_velocity_field("v").add_id_field("id");
        let c = if self.diameter { c.add_diameter_field("size") } else { c.add_radius_field("size") };
        if self.typed { c.add_type_field("type") } else { c }
    }
    fn filter(&self) -> String {
        format!(r"part_(\d+)\.{}", self.ext())
    }
    fn files(&self, names: Vec<&str>, dt: f64) {
        match self.kind {
            Kind::Legacy => self.legacy().write_hdf5_from_files(names, dt, OUT, &self.filter()),
            _ => self.xml().write_hdf5_from_files(names, dt, OUT, &self.filter()),
        }
    }
    fn folder(&self, folder: &str, dt: f64) {
        match self.kind {
            Kind::Legacy => self.legacy().write_hdf5_from_folder(folder, dt, OUT, &self.filter()),
            _ => self.xml().write_hdf5_from_folder(folder, dt, OUT, &self.filter()),
        }
    }
}
/// particles whose values are ordered like their numbers (so that the statistics do not branch)
pub fn ranked(name: &str, ids: &[u64], base: i64) -> Vec<Part> {
    ids.iter()
        .enumerate()
        .map(|(i, id)| {
            let v = |n: &str, k: i64| real(&format!("{name}_{n}_{i}_{k}"), 10 * i as i64 + base + 3 * k, 10 * i as i64 + base + 3 * k + 2);
            Part {
                id: *id,
                pos: [v("p", 0), v("p", 1), v("p", 2)],
                vel: [v("v", 0), v("v", 1), v("v", 2)],
                radius: real(&format!("{name}_r_{i}"), 0, 8),
                ty: 1 + (i as u64) % 3,
            }
        })
        .collect()
}
pub fn check_steps(want: &[Snap]) {
    let mut d = TData::new(OUT);
    check(*d.global_stats().timesteps() == want.len(), "number of steps");
    for (i, s) in want.iter().enumerate() {
        same(d.get_timestep(i), s, "converted");
    }
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
fn c30_order() {
    let c = Conv::any();
    let order = choose("order", 6);
    let ids = [[0, 1, 2], [3, 70_000, 4_294_967_301], [1, 2, 900]][order % 3];
    let p = ranked("a", &ids, 0);
    let file: Vec<Part> = ORDERS[order].iter().map(|i| p[*i].clone()).collect();
    let n = if order == 5 { 1 + choose("particles", 3) } else { 3 };
    let _s = Scratch::new();
    let name = format!("dir/part_4.{}", c.ext());
    put_vtk(&name, &file[..n], c.kind, c.diameter, if c.kind == Kind::Legacy { 0 } else { choose("split", n + 1) });
    let dt = real("dt", 1, 4);
    c.files(vec![&name], dt);
    check_steps(&[snap(4.0 * dt, &file[..n], c.typed)]);
    cover(if file[0].id > file[1].id { "permuted" } else { "in order" });
}
/// more particles than a file of a test has, in no order, with identifiers of any size
fn c30_many() {
    let c = Conv::any();
    let _s = Scratch::new();
    let n = [23, 64, 150][choose("n", 3)];
    let v = real("value", -8, 8);
    let at = n / 3;
    let p: Vec<Part> = (0..n)
        .map(|i| {
            let k = (i * 37) % n;
            let f = |j: usize| if i == at && j == 1 { v } else { (k * 7 + j) as f64 };
            Part { id: (k * k * 1009) as u64, pos: [f(0), f(1), f(2)], vel: [f(3), f(4), f(5)], radius: f(6), ty: (k % 3) as u64 }
        })
        .collect();
    let name = format!("part_4.{}", c.ext());
    put_vtk(&name, &p, c.kind, c.diameter, if c.kind == Kind::Legacy { 0 } else { n / 2 });
    c.files(vec![&name], 2.0);
    check_steps(&[snap(8.0, &p, c.typed)]);
    cover("many");
}
fn c30_series() {
    let c = Conv::any();
    let _s = Scratch::new();
    let dt = real("dt", 1, 4);
    let steps = [[0, 10, 20], [9, 10, 100], [7, 8, 9]][choose("steps", 3)];
    let counts = [[1, 2, 3], [3, 1, 2]][choose("counts", 2)];
    let mut names = vec![];
    let mut want = vec![];
    for (i, s) in steps.iter().enumerate() {
        let mut p = ranked(&format!("f{i}"), &[2, 5, 6][..counts[i]], 40 * i as i64);
        p.reverse();
        names.push(format!("run_3/part_{s}.{}", c.ext()));
        put_vtk(&names[i], &p, c.kind, c.diameter, 0);
        want.push(snap(*s as f64 * dt, &p, c.typed));
    }
    c.files(names.iter().map(|x| x.as_str()).collect(), dt);
    check_steps(&want);
    cover("series");
}
fn c30_unsorted() {
    let c = Conv { kind: KINDS[choose("kind", 3)], diameter: false, typed: true };
    let _s = Scratch::new();
    let dt = real("dt", 1, 4);
    let o = ORDERS[choose("order", 6)];
    let mut names = vec![];
    let mut want = vec![];
    for i in o {
        let p = ranked(&format!("f{i}"), &[1, 2], 40 * i as i64);
        names.push(format!("part_{}.{}", 3 * i + 2, c.ext()));
        put_vtk(names.last().unwrap(), &p, c.kind, false, 1);
        want.push(snap((3 * i + 2) as f64 * dt, &p, true));
    }
    let r = catches(|| c.files(names.iter().map(|x| x.as_str()).collect(), dt));
    if o == [0, 1, 2] {
        check(r.is_ok(), "sorted files are converted");
        check_steps(&want);
        cover("sorted");
    } else {
        check(r.is_err(), "files that are not in the order of time are converted");
        cover("unsorted");
    }
}
fn c30_folder() {
    let c = Conv::any();
    let s = Scratch::new();
    let dt = real("dt", 1, 4);
    let mut want = vec![];
    for (i, step) in [2, 10, 100].iter().enumerate() {
        let p = ranked(&format!("f{i}"), &[4, 1], 40 * i as i64);
        let f = s.write(&format!("part_{step}.{}", c.ext()), "");
        put_vtk(&f, &p, c.kind, c.diameter, 1);
        want.push(snap(*step as f64 * dt, &p, c.typed));
    }
    s.write(&format!("part_boundingBox_3.{}", c.ext()), "");
    s.write("notes.txt", "");
    let f = s.0.to_str().unwrap().to_string();
    c.folder(&if flag("slash") { f + "/" } else { f }, dt);
    check_steps(&want);
    cover("folder");
}

/// statistics as they follow from the snapshots
fn check_stats(g: &GlobalStats, want: &[Snap], what: &str) {
    let n = want.len();
    check(*g.timesteps() == n, &format!("{what}: number of steps"));
    check(g.time_array().len() == n, &format!("{what}: length of the time array"));
    for i in 0..n {
        eq(g.time_array()[i], want[i].time, &format!("{what}: time array"));
    }
    eq(*g.min_time(), want[0].time, &format!("{what}: first time"));
    eq(*g.max_time(), want[n - 1].time, &format!("{what}: last time"));
    if n > 1 {
        eq(*g.sample_rate(), want[n - 1].time - want[n - 2].time, &format!("{what}: sample rate"));
    }
    let most = want.iter().map(|s| s.id.len()).max().unwrap();
    check(*g.nparticles() >= most, &format!("{what}: less particles than a snapshot has"));
    let extremes = |get: &dyn Fn(&Snap, usize) -> f64| {
        let v: Vec<f64> = want.iter().flat_map(|s| (0..s.id.len()).map(move |i| (s, i))).map(|(s, i)| get(s, i)).collect();
        let (mut lo, mut hi, mut sum) = (v[0], v[0], 0.0);
        for x in &v {
            if *x < lo {
                lo = *x;
            }
            if *x > hi {
                hi = *x;
            }
            sum += x;
        }
        [lo, sum / v.len() as f64, hi]
    };
    for k in 0..3 {
        let [lo, _, hi] = extremes(&|s, i| s.pos[i][k]);
        eq(g.dimensions()[[0, k]], lo, &format!("{what}: lower limit"));
        eq(g.dimensions()[[1, k]], hi, &format!("{what}: upper limit"));
        let [lo, mean, hi] = extremes(&|s, i| s.vel[i][k]);
        eq(g.velocity()[[k, 0]], lo, &format!("{what}: smallest velocity component"));
        eq(g.velocity()[[k, 1]], mean, &format!("{what}: mean velocity component"));
        eq(g.velocity()[[k, 2]], hi, &format!("{what}: largest velocity component"));
    }
    let [lo, mean, hi] = extremes(&|s, i| s.vel[i].iter().map(|x| x * x).sum::<f64>().sqrt());
    eq(g.velocity_mag()[0], lo, &format!("{what}: smallest speed"));
    eq(g.velocity_mag()[1], mean, &format!("{what}: mean speed"));
    eq(g.velocity_mag()[2], hi, &format!("{what}: largest speed"));
}
/// concrete particles but for one symbolic column
fn mixed(name: &str, n: usize, first: u64, column: usize, shift: usize) -> Vec<Part> {
    (0..n)
        .map(|i| {
            let j = i + shift;
            let c = |k: usize| {
                if k == column {
                    real(&format!("{name}_{i}_{k}"), -8, 8)
                } else {
                    ((j * 5 + k * 3 + j * j * k) % 11) as f64 - 4.0
                }
            };
            Part { id: first + i as u64, pos: [c(0), c(1), c(2)], vel: [c(3), c(4), c(5)], radius: 0.5, ty: 1 }
        })
        .collect()
}
fn c31_vtk() {
    let c = Conv { kind: KINDS[choose("kind", 3)], diameter: false, typed: true };
    let _s = Scratch::new();
    let dt = real("dt", 1, 4) / 16.0;
    let col = choose("column", 6);
    let series = choose("counts", 4);
    let counts = [[2, 2], [2, 1], [1, 2], [1, 1]][series];
    let (mut names, mut want) = (vec![], vec![]);
    for (i, step) in [[0, 5], [3, 4]][series % 2].iter().enumerate() {
        let p = mixed(&format!("f{i}"), counts[i], i as u64 * 2, col, 3 * i);
        names.push(format!("part_{step}.{}", c.ext()));
        put_vtk(&names[i], &p, c.kind, false, 0);
        want.push(snap(*step as f64 * dt, &p, true));
    }
    c.files(names.iter().map(|x| x.as_str()).collect(), dt);
    let mut d = TData::new(OUT);
    let g = d.global_stats();
    check_stats(&g, &want, "VTK");
    for s in &want {
        check(s.id.iter().all(|i| *i <= *g.nparticles() as f64), "an identifier above the number of particles");
    }
    check_steps(&want);
    cover("statistics");
}

/// text of a table; the cells stand for values that may be symbolic
pub fn table(rows: &[Vec<f64>], order: &[usize], sep: char, header: bool, comment: bool) -> String {
    let mut t = String::new();
    if header {
        t += &order.iter().map(|c| format!("column{c}")).collect::<Vec<_>>().join(&sep.to_string());
        t += "\n";
    }
    for (i, r) in rows.iter().enumerate() {
        if comment && i == 1 {
            t += "# a comment\n";
        }
        let cells: Vec<String> = order.iter().map(|c| if *c < r.len() { ndarray_csv::cell(r[*c]) } else { "17".into() }).collect();
        t += &cells.join(&sep.to_string());
        t += "\n";
    }
    t
}
/// positions of the columns in the file for the columns that are asked for
pub fn columns(order: &[usize], n: usize) -> Vec<i64> {
    (0..n).map(|c| order.iter().position(|x| *x == c).unwrap() as i64).collect()
}
/// rows in the order of time without those that are not later than the row before
fn in_time(rows: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![];
    for r in rows {
        let mut at = out.len();
        while at > 0 && out[at - 1][0] > r[0] {
            at -= 1;
        }
        out.insert(at, r.clone());
    }
    let mut kept: Vec<Vec<f64>> = vec![];
    for r in out {
        if kept.is_empty() || kept[kept.len() - 1][0] < r[0] {
            kept.push(r);
        }
    }
    kept
}
pub fn row_snap(r: &[f64], radius: f64) -> Snap {
    Snap {
        time: r[0],
        pos: vec![[r[1], r[2], r[3]]],
        vel: vec![[r[4], r[5], r[6]]],
        radius: vec![radius],
        id: vec![0.0],
        cloud: vec![1.0],
        density: vec![1.0],
        ptype: vec![1.0],
    }
}
const LAYOUTS: [&[usize]; 4] = [&[0, 1, 2, 3, 4, 5, 6], &[6, 5, 4, 3, 2, 1, 0], &[9, 3, 0, 8, 1, 2, 6, 5, 4], &[1, 2, 3, 4, 5, 6, 0, 7]];
fn c32_csv() {
    let s = Scratch::new();
    let n = 1 + choose("rows", if thorough() { 4 } else { 3 });
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let b = 10 * i as i64;
            let mut r = vec![real(&format!("t{i}"), -8, 8)];
            r.extend((0..3).map(|k| real(&format!("p{i}_{k}"), b, b + 4)));
            r.extend((0..3).map(|k| (10 * i + k) as f64));
            r
        })
        .collect();
    let lay = LAYOUTS[choose("layout", 4)];
    let (header, comment, sep) = (flag("header"), flag("comment"), [',', ';'][choose("separator", 2)]);
    let f = s.write("data.csv", &table(&rows, lay, sep, header, comment));
    let radius = real("radius", 0, 8);
    csv_converter(&f, OUT, columns(lay, 7), &sep.to_string(), header, "#", false, false, radius, 9);
    let want = in_time(&rows);
    let mut d = PData::new(OUT);
    check(*d.global_stats().timesteps() == want.len(), "number of steps");
    check(*d.global_stats().nparticles() == 1, "number of particles");
    for (i, r) in want.iter().enumerate() {
        same(d.get_timestep(i), &row_snap(r, radius), "csv");
        same(&d.get_timestep_unbuffered(i), &row_snap(r, radius), "csv, unbuffered");
    }
    cover(if want.len() < n { "equal times" } else { "all rows" });
}
/// long files, with many rows that are left out and many that are out of order
fn c32_long() {
    let s = Scratch::new();
    let n = 1300;
    let kind = choose("kind", 3);
    let v = real("value", -8, 8);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let t = match kind {
                0 => (i / 2) as f64,
                1 => i as f64 * 0.5,
                _ => (n - i) as f64 * 0.25,
            };
            (0..7).map(|k| if k == 0 { t } else if k == 3 && i == 778 { v } else { (i * 8 + k) as f64 }).collect()
        })
        .collect();
    let lay = LAYOUTS[choose("layout", 2)];
    let f = s.write("data.csv", &table(&rows, lay, ',', false, false));
    csv_converter(&f, OUT, columns(lay, 7), ",", false, "#", false, false, 0.5, 9);
    let want = in_time(&rows);
    let mut d = PData::new(OUT);
    check(*d.global_stats().timesteps() == want.len(), "number of steps");
    for (i, r) in want.iter().enumerate() {
        same(d.get_timestep(i), &row_snap(r, 0.5), "csv");
    }
    cover(if want.len() < n { "equal times" } else { "all rows" });
}
fn c31_csv() {
    let s = Scratch::new();
    let n = if thorough() { 4 } else { 3 };
    let col = choose("column", 7);
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            (0..7)
                .map(|k| {
                    if k == col {
                        real(&format!("v{i}"), -8, 8)
                    } else if k == 0 {
                        [0.125, 0.25, 0.75, 2.0][i]
                    } else {
                        ((i * 5 + k * 3 + i * i * k) % 11) as f64 - 4.0
                    }
                })
                .collect()
        })
        .collect();
    let f = s.write("data.csv", &table(&rows, LAYOUTS[0], ',', true, false));
    csv_converter(&f, OUT, columns(LAYOUTS[0], 7), ",", true, "#", false, false, 0.5, 9);
    let want: Vec<Snap> = in_time(&rows).iter().map(|r| row_snap(r, 0.5)).collect();
    check_stats(&PData::new(OUT).global_stats(), &want, "csv");
    cover("statistics");
}
/// several files, one per snapshot
fn multi(symbolic: bool) {
    let s = Scratch::new();
    let nf = 1 + choose("files", if symbolic { 2 } else { 3 });
    let counts = [[1, 2, 3], [3, 1, 2]][choose("counts", 2)];
    let col = if symbolic { choose("column", 6) } else { 99 };
    let full = symbolic || flag("velocities");
    let lay: &[usize] = [LAYOUTS[0], LAYOUTS[1], &[8, 1, 0, 2, 3, 6, 5, 4]][if symbolic { 0 } else { choose("layout", 3) }];
    let (header, sep) = if symbolic { (true, ',') } else { (flag("header"), [',', ';'][choose("separator", 2)]) };
    let radius = real("radius", 0, 8);
    let mut times = vec![];
    let (mut names, mut want) = (vec![], vec![]);
    for i in 0..nf {
        // times in ascending order
        let t = real(&format!("dt{i}"), 0, 8) + if i > 0 { times[i - 1] + 0.0625 } else { 0.0 };
        times.push(t);
        let p = if symbolic {
            mixed(&format!("f{i}"), counts[i], 10, col, 3 * i)
        } else {
            ranked(&format!("f{i}"), &[12, 3, 8][..counts[i]], 40 * i as i64)
        };
        let rows: Vec<Vec<f64>> = p
            .iter()
            .map(|x| vec![x.id as f64, x.pos[0], x.pos[1], x.pos[2], x.vel[0], x.vel[1], x.vel[2]])
            .collect();
        names.push(s.write(&format!("f{i}.csv"), &table(&rows, lay, sep, header, false)));
        let vel = |x: &Part| if full { x.vel } else { [f64::NAN; 3] };
        want.push(Snap {
            time: t,
            pos: p.iter().map(|x| x.pos).collect(),
            vel: p.iter().map(vel).collect(),
            radius: vec![radius; p.len()],
            id: p.iter().map(|x| x.id as f64).collect(),
            cloud: vec![0.0; p.len()],
            density: vec![1.0; p.len()],
            ptype: vec![0.0; p.len()],
        });
    }
    let f: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    csv_multi_file_time_step(f, OUT, columns(lay, if full { 7 } else { 4 }), times, &sep.to_string(), header, "#", false, false, radius);
    if symbolic {
        check_stats(&TData::new(OUT).global_stats(), &want, "several csv files");
    }
    check_steps(&want);
    cover(if nf > 1 { "several files" } else { "one file" });
}
fn c32_multi() {
    multi(false)
}
fn c31_multi() {
    multi(true)
}

/// what is read back for the trajectories of several particles that were seen at the same times
pub fn tracks(p: &[Vec<Vec<f64>>], radius: f64, ptype: f64) -> Vec<Snap> {
    (0..p[0].len())
        .map(|i| {
            let all = |a: usize| p.iter().map(|r| [r[i][a], r[i][a + 1], r[i][a + 2]]).collect::<Vec<_>>();
            Snap {
                time: p[0][i][0],
                pos: all(1),
                vel: all(4),
                radius: vec![radius; p.len()],
                id: (0..p.len()).map(|k| k as f64).collect(),
                cloud: vec![1.0; p.len()],
                density: vec![1.0; p.len()],
                ptype: vec![ptype; p.len()],
            }
        })
        .collect()
}
fn check_tracks(want: &[Snap], what: &str) {
    let mut d = PData::new(OUT);
    check(*d.global_stats().timesteps() == want.len(), &format!("{what}: number of steps"));
    check(*d.global_stats().nparticles() == want[0].id.len(), &format!("{what}: number of particles"));
    for (i, s) in want.iter().enumerate() {
        same(d.get_timestep(i), s, what);
        same(&d.get_timestep_unbuffered(i), s, what);
    }
}
const LAYOUTS8: [&[usize]; 4] = [&[0, 1, 2, 3, 4, 5, 6, 7], &[7, 6, 5, 4, 3, 2, 1, 0], &[9, 3, 0, 8, 7, 1, 2, 6, 5, 4], &[1, 2, 3, 4, 5, 6, 0, 8, 7]];
/// rows of a table with identifiers, in one of several orders
fn with_ids(p: &[Vec<Vec<f64>>], ids: &[u64], order: usize) -> Vec<Vec<f64>> {
    let row = |k: usize, i: usize| {
        let r = &p[k][i];
        let mut x = vec![r[0], ids[k] as f64];
        x.extend(&r[1..]);
        x
    };
    let (n, m) = (p.len(), p[0].len());
    let mut out: Vec<Vec<f64>> = vec![];
    match order {
        // snapshot by snapshot
        0 => (0..m).for_each(|i| (0..n).for_each(|k| out.push(row(k, i)))),
        // particle by particle
        1 => (0..n).for_each(|k| (0..m).for_each(|i| out.push(row(k, i)))),
        // particles in the opposite order, every second one backwards
        2 => (0..n).rev().for_each(|k| (0..m).for_each(|i| out.push(row(k, if k % 2 == 0 { m - 1 - i } else { i })))),
        // the particles of a snapshot in changing order
        _ => (0..m).rev().for_each(|i| (0..n).for_each(|k| out.push(row((k + i) % n, i)))),
    }
    out
}
fn c43_ids() {
    let s = Scratch::new();
    let n = 1 + choose("particles", 3);
    let m = 1 + choose("steps", if n < 3 || thorough() { 3 } else { 2 });
    let order = choose("order", 4);
    let ids: &[u64] = [&[2, 5, 9], &[0, 1, 2], &[3, 70_000, 4_294_967_301], &[1, 2, 900]][order];
    let time: Vec<f64> = (0..m).map(|i| real(&format!("t{i}"), -8, 8)).collect();
    let p: Vec<Vec<Vec<f64>>> = (0..n)
        .map(|k| {
            (0..m)
                .map(|i| {
                    let b = 20 * (n * i + k) as i64;
                    let mut r = vec![time[i]];
                    r.extend((0..3).map(|a| real(&format!("p{k}_{i}_{a}"), b + 4 * a, b + 4 * a + 3)));
                    r.extend((0..3).map(|a| (10 * i + 100 * k + a) as f64));
                    r
                })
                .collect()
        })
        .collect();
    let lay = LAYOUTS8[(order + m) % 4];
    let (header, comment, sep) = (order / 2 == m % 2, order % 2 == 1, [',', ';'][n % 2]);
    let f = s.write("data.csv", &table(&with_ids(&p, ids, order), lay, sep, header, comment));
    let radius = real("radius", 0, 8);
    csv_multi_converter(&f, OUT, columns(lay, 8), &sep.to_string(), header, "#", false, false, radius, "id_line");
    // equal times: the row that is first in the file is kept
    let kept: Vec<Vec<Vec<f64>>> = (0..n)
        .map(|k| {
            let rows: Vec<Vec<f64>> = with_ids(&p[k..k + 1], &ids[k..k + 1], 1);
            let rows = if order == 3 || (order == 2 && k % 2 == 0) { rows.into_iter().rev().collect() } else { rows };
            in_time(&rows).into_iter().map(|mut r| {
                r.remove(1);
                r
            }).collect()
        })
        .collect();
    check_tracks(&tracks(&kept, radius, 0.0), "particles with identifiers");
    cover(if kept[0].len() < m { "equal times" } else { "all rows" });
}
/// trajectories one after the other
fn chain(n: usize, lens: &[usize], f: &dyn Fn(usize, usize) -> Vec<f64>) -> Vec<Vec<Vec<f64>>> {
    (0..n).map(|k| (0..lens[k]).map(|i| f(k, i)).collect()).collect()
}
fn c43_chain() {
    let s = Scratch::new();
    let n = 1 + choose("particles", 3);
    let m = 10 + choose("steps", 2);
    let special = choose("symbolic", m);
    let from = real("from", -8, 8);
    let p = chain(n, &[m; 3], &|k, i| {
        let b = 20 * (m * k + i) as i64;
        // in some cases two rows of the same time
        let again = match (special + n) % 3 {
            1 if i > 3 => 1,
            2 if i == m - 1 => 1,
            _ => 0,
        };
        let mut r = vec![from + (i - again) as f64 * 0.5];
        r.extend((0..6).map(|a| if i == special && a < 4 { real(&format!("v{k}_{a}"), b + a, b + a + 1) } else { (b + a) as f64 }));
        r
    });
    let lay = LAYOUTS[choose("layout", 4)];
    let (header, comment, sep) = (special % 2 == 0, m == 10, [',', ';'][n % 2]);
    let rows: Vec<Vec<f64>> = p.iter().flatten().cloned().collect();
    let f = s.write("data.csv", &table(&rows, lay, sep, header, comment));
    let radius = real("radius", 0, 8);
    csv_multi_converter(&f, OUT, columns(lay, 7), &sep.to_string(), header, "#", false, false, radius, "chain");
    let kept: Vec<Vec<Vec<f64>>> = p.iter().map(|r| in_time(r)).collect();
    check_tracks(&tracks(&kept, radius, 1.0), "chained trajectories");
    cover(&format!("{n} trajectories"));
}
/// extents, velocities and times of several particles
fn c43_stats() {
    let s = Scratch::new();
    let ids = flag("identifiers");
    let (n, m) = if ids { (1 + choose("particles", 2), 2) } else { (2, 10) };
    let col = choose("column", 6);
    let order = if ids { choose("order", 4) } else { 0 };
    let at = if ids { 0 } else { choose("from", m) };
    let p = chain(n, &[m; 3], &|k, i| {
        let j = i + m * k;
        let mut r = vec![if m > 2 || order % 2 == 0 { -0.75 } else { 1.5 } + (i * i) as f64 * 0.25 + i as f64 + if at % 2 == 1 { 2.0 } else { 0.0 }];
        r.extend((0..6).map(|a| {
            if a == col && (if ids { (k == 0 && col < 3) || i == order % 2 } else { i == at && k != at % 3 }) {
                real(&format!("v{k}_{i}"), -8, 8)
            } else {
                ((j * 5 + a * 3 + j * j * a) % 11) as f64 - 4.0
            }
        }));
        r
    });
    let (lay, rows): (&[usize], _) = if ids { (LAYOUTS8[0], with_ids(&p, &[3, 8], order)) } else { (LAYOUTS[0], p.iter().flatten().cloned().collect()) };
    let f = s.write("data.csv", &table(&rows, lay, ',', true, false));
    csv_multi_converter(&f, OUT, columns(lay, if ids { 8 } else { 7 }), ",", true, "#", false, false, 0.5, if ids { "id_line" } else { "chain" });
    check_stats(&PData::new(OUT).global_stats(), &tracks(&p, 0.5, 0.0), "several particles");
    cover(if ids { "identifiers" } else { "chain" });
}
/// velocities are those of parabolas through nine samples
fn c43_velocity() {
    let s = Scratch::new();
    let ids = flag("identifiers");
    let (n, m) = (2, 10);
    let (o, axis) = (choose("symbolic", m), choose("axis", 3));
    let p = chain(n, &[m; 3], &|k, i| {
        let mut r = vec![0.5 + i as f64 * 0.25 + if i > 4 { 1.0 } else { 0.0 }];
        r.extend((0..3).map(|a| {
            if i == o && a == axis {
                // a narrow range keeps the order of the speeds
                var(&format!("x{k}"), 4096 * (i + 3 * k) as i64, 4096 * (i + 3 * k) as i64 + 256, 10)
            } else {
                ((i * i * (a + 2) + i * 3 + 5 * k) % 13) as f64
            }
        }));
        r
    });
    let rows: Vec<Vec<f64>> = if ids { with_ids(&p, &[3, 8], o % 4) } else { p.iter().flatten().cloned().collect() };
    let c = if ids { 5 } else { 4 };
    let f = s.write("data.csv", &table(&rows, &[0, 1, 2, 3, 4][..c], ',', true, false));
    csv_multi_converter(&f, OUT, (0..c as i64).collect(), ",", true, "#", true, false, 0.5, if ids { "id_line" } else { "chain" });
    let want: Vec<Vec<Vec<f64>>> = p
        .iter()
        .map(|r| {
            (4..m - 4)
                .map(|i| {
                    let t: Vec<f64> = r[i - 4..=i + 4].iter().map(|x| x[0]).collect();
                    let mut x = r[i].clone();
                    x.extend((1..4).map(|a| fit(&t, &r[i - 4..=i + 4].iter().map(|x| x[a]).collect::<Vec<_>>(), r[i][0])));
                    x
                })
                .collect()
        })
        .collect();
    let mut d = PData::new(OUT);
    check(*d.global_stats().nparticles() == n, "number of particles");
    check(*d.global_stats().timesteps() == m - 8, "number of steps");
    for (i, w) in tracks(&want, 0.5, if ids { 0.0 } else { 1.0 }).iter().enumerate() {
        same(d.get_timestep(i), w, "fitted velocities");
    }
    cover(if ids { "identifiers" } else { "chain" });
}
/// with interpolation, each particle as if it were alone in a file
fn c43_interpolate() {
    let ids = flag("identifiers");
    let n = 1 + choose("particles", 2);
    let (o, axis) = (choose("symbolic", 3) * 5, choose("axis", 3));
    let kind = choose("times", 3);
    let p = chain(n, &[11; 2], &|k, i| {
        let mut r = vec![match kind {
            0 => i as f64 * 0.5,
            1 => (i * i) as f64 * 0.125,
            _ => i as f64 + if i > 3 { 2.5 } else { 0.0 } - if i == 7 { 0.75 } else { 0.0 },
        }];
        r.extend((0..3).map(|a| {
            if i == o && a == axis {
                let b = 4096 * (i + 3 * k) as i64;
                var(&format!("x{k}"), b, b + 256, 10)
            } else {
                ((i * i * (a + 2) + i * 3 + 5 * k) % 13) as f64
            }
        }));
        r
    });
    let alone: Vec<_> = p.iter().map(|r| run_csv(r, true, 9)).collect();
    let rows: Vec<Vec<f64>> = if ids { with_ids(&p, &[3, 8][..n], (o + axis) % 4) } else { p.iter().flatten().cloned().collect() };
    let c = if ids { 5 } else { 4 };
    let s = Scratch::new();
    let f = s.write("several.csv", &table(&rows, &[0, 1, 2, 3, 4][..c], ',', true, false));
    csv_multi_converter(&f, OUT, (0..c as i64).collect(), ",", true, "#", true, true, 0.5, if ids { "id_line" } else { "chain" });
    let mut d = PData::new(OUT);
    check(*d.global_stats().timesteps() == alone[0].len(), "number of steps");
    for i in 0..alone[0].len() {
        let t = d.get_timestep(i);
        eq(*t.time(), alone[0][i].0, "time");
        for k in 0..n {
            for a in 0..3 {
                eq(t.position()[k][a], alone[k][i].1[a], "interpolated position");
                eq(t.velocity()[[k, a]], alone[k][i].2[a], "velocity between interpolated positions");
            }
        }
    }
    cover(if ids { "identifiers" } else { "chain" });
}

const TIMES: [&[f64]; 8] = [
    &[0.0, 1.0, 2.0, 3.0, 4.0],
    &[1.0, 1.5, 3.0, 3.25, 7.0],
    &[-2.0, -1.75, -1.5, -1.25, 6.0],
    &[2.0, 8.0, 8.25, 8.5, 8.75, 9.0],
    &[0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 12.0],
    &[0.0, 0.25, 5.0, 5.25, 10.0, 10.25],
    &[0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 12.0],
    &[3.0, 3.5, 9.0, 9.125, 9.25, 9.375, 9.5, 10.0],
];
fn times() -> &'static [f64] {
    TIMES[choose("times", TIMES.len())]
}
/// rows of time and position; one coordinate is symbolic, of all samples or of one
fn track(t: &[f64], axis: usize, only: Option<usize>) -> Vec<Vec<f64>> {
    t.iter()
        .enumerate()
        .map(|(i, t)| {
            let mut r = vec![*t];
            r.extend((0..3).map(|k| {
                if k == axis && only.map_or(true, |o| o == i) {
                    // a narrow range, if only one is symbolic, keeps the order of the speeds
                    var(&format!("x{i}"), 4096 * i as i64, 4096 * i as i64 + if only.is_some() { 256 } else { 6144 }, 10)
                } else {
                    ((i * i * (k + 2) + i * 3) % 13) as f64
                }
            }));
            r
        })
        .collect()
}
/// derivative at time m of the quadratic polynomial that fits the samples best
fn fit(t: &[f64], x: &[f64], m: f64) -> f64 {
    let s = |p: i32| t.iter().map(|t| (t - m).powi(p)).sum::<f64>();
    let a = [[s(0), s(1), s(2)], [s(1), s(2), s(3)], [s(2), s(3), s(4)]];
    let b: Vec<f64> = (0..3).map(|p| t.iter().zip(x).map(|(t, x)| (t - m).powi(p) * x).sum()).collect();
    let det = |a: &[[f64; 3]; 3]| {
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    };
    let mut c = a;
    for i in 0..3 {
        c[i][1] = b[i];
    }
    // Cramer's rule; the determinant of the coefficients is concrete
    det(&c) / det(&a)
}
fn run_csv(rows: &[Vec<f64>], interpolate: bool, window: usize) -> Vec<(f64, [f64; 3], [f64; 3])> {
    let s = Scratch::new();
    let f = s.write("data.csv", &table(rows, &[0, 1, 2, 3], ',', true, false));
    csv_converter(&f, OUT, vec![0, 1, 2, 3], ",", true, "#", true, interpolate, 0.5, window);
    let mut d = PData::new(OUT);
    (0..*d.global_stats().timesteps())
        .map(|i| {
            let t = d.get_timestep(i);
            let p = t.position()[0];
            let v = t.velocity();
            (*t.time(), [p[0], p[1], p[2]], [v[[0, 0]], v[[0, 1]], v[[0, 2]]])
        })
        .collect()
}
fn velocities(t: &[f64], rows: &[Vec<f64>], window: usize) {
    let out = run_csv(rows, false, window);
    let h = (window - 1) / 2;
    check(out.len() == t.len() - 2 * h, "number of steps");
    for (j, (time, p, v)) in out.iter().enumerate() {
        let i = j + h;
        eq(*time, t[i], "time");
        for k in 0..3 {
            eq(p[k], rows[i][k + 1], "position");
            let x: Vec<f64> = rows[i - h..=i + h].iter().map(|r| r[k + 1]).collect();
            eq(v[k], fit(&t[i - h..=i + h], &x, t[i]), "velocity is the slope of the fitted parabola");
        }
    }
    cover(&format!("window {window}"));
}
/// one window, all positions
fn c33_velocity() {
    let t = times();
    let window = [3, 5, 7][choose("window", 3)];
    assume(window <= t.len());
    let o = choose("from", t.len() - window + 1);
    let t = &t[o..o + window];
    velocities(t, &track(t, choose("axis", 3), None), window);
}
/// several windows, the position of any one sample
fn c33_windows() {
    let t = times();
    let window = [3, 5][choose("window", 2)];
    let o = choose("symbolic", t.len());
    velocities(t, &track(t, (o + t.len() + t[1] as usize) % 3, Some(o)), window);
}
/// motion under constant acceleration is fitted exactly
fn c33_parabola() {
    let t = times();
    let window = [3, 5, 7][choose("window", 3)];
    assume(window <= t.len());
    let o = choose("from", t.len() - window + 1);
    let t = &t[o..o + window];
    let (a, b, c) = (real("a", -8, 8), real("b", 0, 8), real("c", 0, 4));
    let rows: Vec<Vec<f64>> = t.iter().map(|t| vec![*t, a + b * t + c * t * t, 2.0 * t, 1.0 - t * t]).collect();
    for (time, _, v) in run_csv(&rows, false, window) {
        eq(v[0], b + 2.0 * c * time, "velocity");
        eq(v[1], 2.0, "velocity");
        eq(v[2], -2.0 * time, "velocity");
    }
    cover("parabola");
}
/// the interpolated position lies on a line between samples that enclose the time
fn on_line(rows: &[Vec<f64>], t: f64, p: &[f64; 3], axis: usize) {
    for i in 0..rows.len() {
        for k in i + 1..rows.len().min(i + 3) {
            let (ti, tk) = (rows[i][0] - rows[0][0], rows[k][0] - rows[0][0]);
            if !(ti <= t + 1e-9 && t <= tk + 1e-9) {
                continue;
            }
            let w = (t - ti) / (tk - ti);
            let at = |a: usize| rows[i][a + 1] + (rows[k][a + 1] - rows[i][a + 1]) * w;
            if (0..3).all(|a| a == axis || (at(a) - p[a]).abs() < 1e-6) {
                eq(p[axis], at(axis), "position on the line between the samples");
                cover(if k == i + 1 { "neighbours" } else { "two apart" });
                return;
            }
        }
    }
    check(false, "the position is on no line between samples around its time");
}
fn c33_interpolate() {
    let t = times();
    let o = choose("symbolic", t.len());
    let axis = (o + t.len() + t[1] as usize) % 3;
    let rows = track(t, axis, Some(o));
    let out = run_csv(&rows, true, 3);
    let n = t.len();
    check(out.len() == n - 2, "number of steps");
    for (j, (time, p, _)) in out.iter().enumerate() {
        eq(*time, (j + 1) as f64 * (t[n - 1] - t[0]) / (n - 1) as f64, "times are equally spaced");
        on_line(&rows, *time, p, axis);
    }
    // the first and the last sample are kept: the velocities next to the ends use them
    let dt = (t[n - 1] - t[0]) / (n - 1) as f64;
    for k in 0..3 {
        let next = |j: usize| if j == n - 1 { rows[n - 1][k + 1] } else { out[j - 1].1[k] };
        eq(out[0].2[k], (next(2) - rows[0][k + 1]) / (2.0 * dt), "velocity after the first sample");
        eq(out[n - 3].2[k], (rows[n - 1][k + 1] - out[n - 4].1[k]) / (2.0 * dt), "velocity before the last sample");
    }
}
/// the times between the first and the last sample are symbolic
fn c33_times() {
    let n = 4;
    let mut t = vec![0.0];
    for i in 1..n - 1 {
        t.push(real(&format!("t{i}"), 0, 8));
        assume_le(t[i - 1] + 0.0625, t[i]);
    }
    assume_le(t[n - 2] + 0.0625, 8.0);
    t.push(8.0);
    let x = [[0.0, 1.0, 5.0, 2.0], [4.0, 3.0, 3.0, 9.0]][choose("positions", 2)];
    let rows: Vec<Vec<f64>> = (0..n).map(|i| vec![t[i], x[i], 0.0, 0.0]).collect();
    let out = run_csv(&rows, true, 3);
    check(out.len() == n - 2, "number of steps");
    for (j, (time, p, _)) in out.iter().enumerate() {
        eq(*time, (j + 1) as f64 * 8.0 / (n - 1) as f64, "times are equally spaced");
        let mut found = false;
        for i in 0..n {
            for k in i + 1..n.min(i + 3) {
                if found || *time < t[i] || *time > t[k] {
                    continue;
                }
                let d = p[0] - x[i] - (x[k] - x[i]) * (time - t[i]) / (t[k] - t[i]);
                found = d.abs() < 1e-6;
            }
        }
        check(found, "the position is on no line between samples around its time");
    }
    cover("symbolic times");
}

pub const ALL: &[Entry] = &[
    ("c30_order", c30_order),
    ("c30_series", c30_series),
    ("c30_many", c30_many),
    ("c30_unsorted", c30_unsorted),
    ("c30_folder", c30_folder),
    ("c31_vtk", c31_vtk),
    ("c31_csv", c31_csv),
    ("c31_multi", c31_multi),
    ("c32_csv", c32_csv),
    ("c32_long", c32_long),
    ("c32_multi", c32_multi),
    ("c33_velocity", c33_velocity),
    ("c33_windows", c33_windows),
    ("c33_parabola", c33_parabola),
    ("c33_interpolate", c33_interpolate),
    ("c33_times", c33_times),
    ("c43_ids", c43_ids),
    ("c43_chain", c43_chain),
    ("c43_stats", c43_stats),
    ("c43_velocity", c43_velocity),
    ("c43_interpolate", c43_interpolate),
];
