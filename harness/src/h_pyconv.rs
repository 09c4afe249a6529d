//! C41: conversion of files from Python.
use crate::h_conv::{check_steps, columns, ranked, snap, table, Part, Scratch, OUT};
use crate::h_data::Snap;
use crate::py::*;
use crate::sym::*;
use crate::Entry;
use pyo3::prelude::*;
use upppp_rust::converter::{csv_converter, csv_multi_converter, csv_multi_file_time_step};
use vtkio::model::*;

pub const ALL: &[Entry] = &[("c41_vtk", c41_vtk), ("c41_folder", c41_folder), ("c41_csv", c41_csv), ("c41_velocity", c41_velocity), ("c41_files", c41_files), ("c41_multi", c41_multi)];

/// particles under the default names of the fields, and others under other names
struct Two {
    usual: Vec<Part>,
    other: Vec<Part>,
}
const USUAL: [&str; 4] = ["v", "radius", "id", "type"];
const OTHER: [&str; 5] = ["speed", "r2", "number", "material", "d"];
fn arrays(t: &Two) -> Vec<(String, u32, IOBuffer)> {
    let mut o = vec![];
    for (names, p) in [(&USUAL[..], &t.usual), (&OTHER[..4], &t.other)] {
        o.push((names[0].into(), 3, IOBuffer::F64(p.iter().flat_map(|x| x.vel).collect())));
        o.push((names[1].into(), 1, IOBuffer::F64(p.iter().map(|x| x.radius).collect())));
        o.push((names[2].into(), 1, IOBuffer::U64(p.iter().map(|x| x.id).collect())));
        o.push((names[3].into(), 1, IOBuffer::I32(p.iter().map(|x| x.ty as i32).collect())));
    }
    o.push((OTHER[4].into(), 1, IOBuffer::F64(t.other.iter().map(|x| 6.0 * x.radius).collect())));
    o
}
fn store(name: &str, t: &Two, kind: usize) {
    let points = IOBuffer::F64(t.usual.iter().flat_map(|x| x.pos).collect());
    if kind == 0 {
        let data_array = arrays(t).into_iter().map(|(name, elem, data)| FieldArray { name, elem, data }).collect();
        let point = vec![Attribute::Field { name: "FieldData".into(), data_array }];
        let p = PolyDataPiece { points, data: Attributes { point, cell: vec![] } };
        return put(name, DataSet::PolyData { meta: None, pieces: vec![Piece(p)] });
    }
    let point = arrays(t).into_iter().map(|(name, _, data)| Attribute::DataArray(DataArray { name, elem: ElementType::Scalars, data })).collect();
    let pieces = vec![Piece(PolyDataPiece { points, data: Attributes { point, cell: vec![] } })];
    put(name, if kind == 1 { DataSet::PolyData { meta: None, pieces } } else { DataSet::UnstructuredGrid { meta: None, pieces } });
}
/// the snapshot with the fields that were chosen
fn chosen(time: f64, t: &Two, mask: usize) -> Snap {
    let p: Vec<Part> = t
        .usual
        .iter()
        .zip(&t.other)
        .map(|(u, o)| {
            let w = |k: usize| if mask >> k & 1 == 1 { o } else { u };
            Part {
                pos: u.pos,
                vel: w(0).vel,
                radius: if mask >> 4 & 1 == 1 { 3.0 * o.radius } else { w(1).radius },
                id: w(2).id,
                ty: w(3).ty,
            }
        })
        .collect();
    snap(time, &p, true)
}
fn vtk(folder: bool) {
    let kind = choose("kind", 3);
    let ext = ["vtk", "vtp", "vtu"][kind];
    let s = Scratch::new();
    let dt = real("dt", 1, 4);
    // which names are given
    let mask = choose("names", 32);
    let mut names = vec![];
    let mut want = vec![];
    for (i, step) in [9, 10].iter().enumerate() {
        let usual = ranked(&format!("u{i}"), &[1, 5], 40 * i as i64);
        let mut other = ranked(&format!("o{i}"), &[7, 3], 40 * i as i64 + 100);
        other[0].ty = 9;
        let t = Two { usual, other };
        let f = s.write(&format!("part_{step}.{ext}"), "");
        store(&f, &t, kind);
        names.push(f);
        want.push(chosen(*step as f64 * dt, &t, mask));
    }
    with_up4(|py, up4| {
        let c = up4.getattr("Converter").unwrap();
        let mut args: Vec<PyObject> = if folder {
            vec![s.0.to_str().unwrap().to_object(py)]
        } else {
            vec![names.to_object(py)]
        };
        args.push(dt.to_object(py));
        args.push(OUT.to_object(py));
        let keys = ["velocity_field_name", "radius_field_name", "id_field_name", "type_field_name", "diameter_field_name"];
        let filter = format!(r"(\d+).{ext}");
        let mut kw: Vec<(&str, PyObject)> = vec![];
        if flag("positional") {
            args.push(filter.to_object(py));
            for k in 0..4 {
                args.push(if mask >> k & 1 == 1 { OTHER[k] } else { USUAL[k] }.to_object(py));
            }
            if mask >> 4 & 1 == 1 {
                args.push(OTHER[4].to_object(py));
            }
        } else {
            if kind != 0 || flag("filter") {
                kw.push(("filter", filter.to_object(py)));
            }
            for k in 0..5 {
                if mask >> k & 1 == 1 {
                    kw.push((keys[k], OTHER[k].to_object(py)));
                }
            }
        }
        let name = if folder { "vtk_from_folder" } else { "vtk" };
        match attempt(|| c.call_method(name, tuple(py, args), Some(kwargs(py, &kw)))) {
            Ok(_) => {
                cover("converted");
                check_steps(&want)
            }
            Err(e) => check(false, &format!("{name} failed: {e}")),
        }
    });
}
fn c41_vtk() {
    vtk(false)
}
fn c41_folder() {
    vtk(true)
}

/// the files made from Python and from Rust are the same
fn same_files(a: Option<(Vec<String>, Vec<f64>)>, b: Option<(Vec<String>, Vec<f64>)>) {
    match (a, b) {
        (Some(a), Some(b)) => {
            cover("compared");
            check(a.0 == b.0, "names, types and shapes in the converted file");
            same(&a.1, &b.1, "contents of the converted file");
        }
        (a, b) => check(a.is_none() && b.is_none(), "file made in one language only"),
    }
}
/// options that are given (by keyword or, up to the last of them, by position); the others keep their defaults
fn options(py: Python, args: &mut Vec<PyObject>, opt: Vec<(&'static str, PyObject, PyObject)>, mask: usize) -> Vec<(&'static str, PyObject)> {
    if flag("positional") {
        let last = (0..opt.len()).filter(|k| mask >> k & 1 == 1).max();
        for (k, (_, d, v)) in opt.into_iter().enumerate() {
            if last.map_or(false, |l| k <= l) {
                args.push(if mask >> k & 1 == 1 { v } else { d });
            }
        }
        return vec![];
    }
    let _ = py;
    opt.into_iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, (n, _, v))| (n, v)).collect()
}
/// rows of numbers: times of a trajectory, or identifiers of particles; then positions and velocities
fn rows(n: usize, wide: bool, name: &str) -> Vec<Vec<f64>> {
    (0..n)
        .map(|i| {
            let mut r = vec![if wide { 1.0 + i as f64 * 0.5 } else { 3.0 + i as f64 }];
            r.extend((0..6).map(|k| ((i * i * (k + 2) + 3 * i + 5 * k) % 13) as f64));
            if i == 1 || i + 1 == n {
                // a narrow range keeps the order of the speeds
                let b = 1024 * (20 + 8 * i as i64);
                r[2] = if n < 9 { real(&format!("{name}{i}"), 20 + 8 * i as i64, 26 + 8 * i as i64) } else if i == 1 { var(&format!("{name}{i}"), b, b + 256, 10) } else { 17.25 };
            }
            r
        })
        .collect()
}
fn csv(vel: bool) {
    let s = Scratch::new();
    let n = if vel { 11 } else { 3 };
    let data = rows(n, true, "p");
    // columns, delimiter, header, comment, (velocity,) interpolate, radius, sampling steps
    let mask = choose("given", 128);
    let on = |k: usize| mask >> k & 1 == 1;
    // without computing velocities they must be in the file
    let lay: &[usize] = if on(0) { &[8, 3, 0, 1, 2, 6, 5, 4] } else { &[0, 1, 2, 3] };
    let sep = if on(1) { ';' } else { ',' };
    let mut text = table(&data, lay, sep, !on(2), false);
    text += if on(3) { "% the end\n" } else { "# the end\n" };
    let f = s.write("data.csv", &text);
    let radius = if on(5) { real("radius", 0, 8) } else { 0.0 };
    let cols = columns(lay, if vel || !on(0) { 4 } else { 7 });
    let window = if on(6) { 5 } else { 9 };
    let comment = if on(3) { "%" } else { "#" };
    let interpolate = on(4);
    let done = catches(|| csv_converter(&f, OUT, cols.clone(), &sep.to_string(), !on(2), comment, vel, interpolate, radius, window));
    let want = hdf5::dump(OUT);
    hdf5::wipe();
    with_up4(|py, up4| {
        let c = up4.getattr("Converter").unwrap();
        let b = |x: bool| x.to_object(py);
        let mut args: Vec<PyObject> = vec![f.to_object(py), OUT.to_object(py)];
        let opt: Vec<(&str, PyObject, PyObject)> = vec![
            ("columns", vec![0, 1, 2, 3].to_object(py), cols.to_object(py)),
            ("delimiter", ",".to_object(py), ";".to_object(py)),
            ("header", b(true), b(false)),
            ("comment", "#".to_object(py), "%".to_object(py)),
            ("vel", b(false), b(vel)),
            ("interpolate", b(false), b(true)),
            ("radius", 0.0.to_object(py), radius.to_object(py)),
            ("sampling_steps", 9.to_object(py), 5.to_object(py)),
        ];
        let m = mask & 15 | (vel as usize) << 4 | (mask >> 4) << 5;
        let kw = options(py, &mut args, opt, m);
        match attempt(|| c.call_method("csv", tuple(py, args), Some(kwargs(py, &kw)))) {
            Ok(_) => {
                check(done.is_ok(), "csv succeeds in Python only");
                same_files(hdf5::dump(OUT), want)
            }
            Err(e) => {
                cover("refused");
                check(done.is_err(), &format!("csv failed: {e}"))
            }
        }
    });
}
fn c41_csv() {
    csv(false)
}
fn c41_velocity() {
    csv(true)
}
fn c41_files() {
    let s = Scratch::new();
    let mask = choose("given", 32);
    let on = |k: usize| mask >> k & 1 == 1;
    let lay: &[usize] = if on(0) { &[8, 3, 0, 1, 2, 6, 5, 4] } else { &[0, 1, 2, 3] };
    let cols = columns(lay, if on(0) && flag("velocities") { 7 } else { 4 });
    let sep = if on(1) { ';' } else { ',' };
    let comment = if on(3) { "%" } else { "#" };
    let radius = if on(4) { real("radius", 0, 8) } else { 0.0 };
    let t0 = real("t", 0, 4);
    let times = vec![t0, t0 + 1.5];
    let mut names = vec![];
    for i in 0..2 {
        let data = rows(2 + i, false, &format!("f{i}_"));
        let mut text = table(&data, lay, sep, !on(2), false);
        text += if on(3) { "% the end\n" } else { "# the end\n" };
        names.push(s.write(&format!("f{i}.csv"), &text));
    }
    csv_multi_file_time_step(names.iter().map(|x| x.as_str()).collect(), OUT, cols.clone(), times.clone(), &sep.to_string(), !on(2), comment, false, false, radius);
    let want = hdf5::dump(OUT);
    hdf5::wipe();
    with_up4(|py, up4| {
        let c = up4.getattr("Converter").unwrap();
        let b = |x: bool| x.to_object(py);
        let mut args: Vec<PyObject> = vec![names.to_object(py), OUT.to_object(py), times.to_object(py)];
        let opt: Vec<(&str, PyObject, PyObject)> = vec![
            ("columns", vec![0, 1, 2, 3].to_object(py), cols.to_object(py)),
            ("delimiter", ",".to_object(py), ";".to_object(py)),
            ("header", b(true), b(false)),
            ("comment", "#".to_object(py), "%".to_object(py)),
            ("vel", b(false), b(false)),
            ("interpolate", b(false), b(false)),
            ("radius", 0.0.to_object(py), radius.to_object(py)),
        ];
        let m = mask & 15 | (mask >> 4) << 6;
        let kw = options(py, &mut args, opt, m);
        match attempt(|| c.call_method("csv_multi_files", tuple(py, args), Some(kwargs(py, &kw)))) {
            Ok(_) => same_files(hdf5::dump(OUT), want),
            Err(e) => check(false, &format!("csv_multi_files failed: {e}")),
        }
    });
}
/// one file with several particles
fn c41_multi() {
    let s = Scratch::new();
    // columns, delimiter, header, comment, velocity, interpolate, radius
    let mask = choose("given", 128);
    let on = |k: usize| mask >> k & 1 == 1;
    let ids = on(0) && flag("identifiers");
    let m = 11;
    let data: Vec<Vec<f64>> = if ids {
        // the identifier is the second column
        rows(2 * m, true, "p").into_iter().enumerate().map(|(i, mut r)| {
            r.insert(1, (7 - 3 * (i % 2)) as f64);
            r
        }).collect()
    } else {
        rows(m, true, "a").into_iter().chain(rows(m, true, "b")).collect()
    };
    let lay: &[usize] = match (on(0), ids) {
        (true, false) => &[8, 3, 0, 1, 2, 6, 5, 4],
        (true, true) => &[9, 3, 0, 1, 2, 6, 5, 4, 7],
        _ => &[0, 1, 2, 3],
    };
    let sep = if on(1) { ';' } else { ',' };
    let mut text = table(&data, lay, sep, !on(2), false);
    text += if on(3) { "% the end\n" } else { "# the end\n" };
    let f = s.write("data.csv", &text);
    let (vel, interpolate) = (on(4), on(5));
    let n = if vel || !on(0) { 4 } else { 7 };
    let cols = columns(lay, n + ids as usize);
    let comment = if on(3) { "%" } else { "#" };
    let radius = if on(6) { real("radius", 0, 8) } else { 0.0 };
    let method = if ids { "id_line" } else { "chain" };
    let done = catches(|| csv_multi_converter(&f, OUT, cols.clone(), &sep.to_string(), !on(2), comment, vel, interpolate, radius, method));
    let want = hdf5::dump(OUT);
    hdf5::wipe();
    with_up4(|py, up4| {
        let c = up4.getattr("Converter").unwrap();
        let b = |x: bool| x.to_object(py);
        let mut args: Vec<PyObject> = vec![f.to_object(py), OUT.to_object(py)];
        let opt: Vec<(&str, PyObject, PyObject)> = vec![
            ("columns", vec![0, 1, 2, 3].to_object(py), cols.to_object(py)),
            ("delimiter", ",".to_object(py), ";".to_object(py)),
            ("header", b(true), b(false)),
            ("comment", "#".to_object(py), "%".to_object(py)),
            ("vel", b(false), b(true)),
            ("interpolate", b(false), b(true)),
            ("radius", 0.0.to_object(py), radius.to_object(py)),
            ("method", "chain".to_object(py), method.to_object(py)),
        ];
        let kw = options(py, &mut args, opt, mask | (ids as usize) << 7);
        match attempt(|| c.call_method("csv_multi", tuple(py, args), Some(kwargs(py, &kw)))) {
            Ok(_) => {
                check(done.is_ok(), "csv_multi succeeds in Python only");
                cover(if ids { "identifiers" } else { "chain" });
                same_files(hdf5::dump(OUT), want)
            }
            Err(e) => {
                cover("refused");
                check(done.is_err(), &format!("csv_multi failed: {e}"))
            }
        }
    });
}
