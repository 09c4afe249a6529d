//! Harnesses: each states one guarantee of upppp_rust over symbolic inputs.
//!   sym <harness> <outdir> <time limit> <max paths> <samples> <dump> <seed> <query ms>
//!   nat <harness> <replay file>...
#![allow(clippy::all)]
mod sym;
mod world;
mod h_grid;
mod h_more;
mod scene;
mod h_fields;
#[cfg(any(variant_data, variant_py))]
mod h_data;
#[cfg(any(variant_data, variant_py))]
mod h_conv;
#[cfg(any(variant_data, variant_py))]
mod h_plot;
#[cfg(variant_py)]
mod h_py;
#[cfg(variant_py)]
mod h_pygrid;
#[cfg(variant_py)]
mod h_pyconv;
#[cfg(variant_py)]
mod h_pyplot;
#[cfg(variant_py)]
mod py;

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Entry = (&'static str, fn());

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

fn run_once(f: fn()) -> (i32, String) {
    LAST.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(()) => (0, String::new()),
        Err(p) => {
            if p.is::<sym::Stop>() {
                (1, String::new())
            } else {
                (2, LAST.with(|l| l.borrow().clone()))
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut all: Vec<Entry> = vec![];
    all.extend_from_slice(h_grid::ALL);
    all.extend_from_slice(h_more::ALL);
    all.extend_from_slice(h_fields::ALL);
    #[cfg(any(variant_data, variant_py))]
    all.extend_from_slice(h_data::ALL);
    #[cfg(any(variant_data, variant_py))]
    all.extend_from_slice(h_conv::ALL);
    #[cfg(any(variant_data, variant_py))]
    all.extend_from_slice(h_plot::ALL);
    #[cfg(variant_py)]
    all.extend_from_slice(h_py::ALL);
    #[cfg(variant_py)]
    all.extend_from_slice(h_pygrid::ALL);
    #[cfg(variant_py)]
    all.extend_from_slice(h_pyconv::ALL);
    #[cfg(variant_py)]
    all.extend_from_slice(h_pyplot::ALL);
    if args.len() < 2 || args[1] == "list" {
        for (n, _) in &all {
            println!("{n}");
        }
        return;
    }
    let f = all.iter().find(|(n, _)| *n == args[1]).expect("unknown harness").1;
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| {
            let f = l.file();
            let f = f.rsplit("/src/").next().unwrap_or(f);
            f.to_string()
        });
        let m: String = m.chars().take(160).collect();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {}", loc.unwrap_or_default()));
    }));
    unsafe {
        if sym::sym_is_symbolic_build() == 1 {
            let h = &args[1];
            let d = &args[2];
            let n = |i: usize| args.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
            sym::sym_init(
                h.as_ptr(), h.len(), d.as_ptr(), d.len(), n(3), n(4) as u64, n(5) as u64, n(6) as i32,
                n(7) as u64, n(8),
            );
            loop {
                sym::sym_begin_path();
                let (s, m) = run_once(f);
                if sym::sym_end_path(s, m.as_ptr(), m.len()) == 0 {
                    break;
                }
            }
            sym::sym_finish();
        } else {
            for file in &args[2..] {
                if sym::nat_load(file.as_ptr(), file.len()) == 0 {
                    println!("REPLAY\t{file}\tMISSING\t");
                    continue;
                }
                let (s, m) = run_once(f);
                sym::nat_report(file.as_ptr(), file.len(), s, m.as_ptr(), m.len());
            }
        }
    }
}
