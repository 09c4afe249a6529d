//! Thin wrapper over the runtime (engine/rt.cpp symbolically, engine/rt_native.cpp natively).
#![allow(dead_code)]
use std::ffi::c_void;

extern "C" {
    fn sym_choose(name: *const u8, len: usize, n: u64) -> u64;
    fn sym_f64(name: *const u8, len: usize, lo: i64, hi: i64, shift: u32) -> f64;
    fn sym_check(ok: bool, msg: *const u8, len: usize);
    fn sym_check_eq(a: f64, b: f64, msg: *const u8, len: usize);
    fn sym_check_le(a: f64, b: f64, msg: *const u8, len: usize);
    fn sym_cover(msg: *const u8, len: usize);
    fn sym_assume(a: f64, b: f64, strict: i32) -> i32;
    fn sym_magic(concrete: f64, v: f64);
    fn sym_resolve(v: f64) -> f64;
    fn sym_is_sym(v: f64) -> i32;
    pub fn sym_is_symbolic_build() -> i32;
    pub fn sym_init(
        h: *const u8, len: usize, dir: *const u8, dlen: usize, tl: f64, maxp: u64, samples: u64,
        dump: i32, seed: u64, qms: f64,
    );
    pub fn sym_begin_path();
    pub fn sym_end_path(status: i32, msg: *const u8, len: usize) -> i32;
    pub fn sym_finish();
    pub fn nat_load(f: *const u8, n: usize) -> i32;
    pub fn nat_report(f: *const u8, n: usize, status: i32, msg: *const u8, len: usize);
}
#[allow(unused)]
type _V = c_void;

/// Payload of the unwinding that ends a path whose assumptions do not hold.
pub struct Stop;
pub fn stop() -> ! {
    std::panic::resume_unwind(Box::new(Stop))
}
/// a symbolic real k / 2^shift with k in lo..=hi
pub fn var(name: &str, lo: i64, hi: i64, shift: u32) -> f64 {
    unsafe { sym_f64(name.as_ptr(), name.len(), lo, hi, shift) }
}
/// a symbolic value in [lo, hi] on a grid of 1/1024
pub fn real(name: &str, lo: i64, hi: i64) -> f64 {
    var(name, lo * 1024, hi * 1024, 10)
}
/// a choice among 0..n (explored exhaustively)
pub fn choose(name: &str, n: usize) -> usize {
    unsafe { sym_choose(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn check(ok: bool, msg: &str) {
    unsafe { sym_check(ok, msg.as_ptr(), msg.len()) }
}
/// a == b up to 1e-6 (two NaNs are equal)
pub fn eq(a: f64, b: f64, msg: &str) {
    unsafe { sym_check_eq(a, b, msg.as_ptr(), msg.len()) }
}
pub fn le(a: f64, b: f64, msg: &str) {
    unsafe { sym_check_le(a, b, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn assume(ok: bool) {
    if !ok {
        stop()
    }
}
pub fn assume_le(a: f64, b: f64) {
    if unsafe { sym_assume(a, b, 0) } == 0 {
        stop()
    }
}
pub fn assume_lt(a: f64, b: f64) {
    if unsafe { sym_assume(a, b, 1) } == 0 {
        stop()
    }
}
pub fn resolve(v: f64) -> f64 {
    unsafe { sym_resolve(v) }
}
pub fn is_sym(v: f64) -> bool {
    unsafe { sym_is_sym(v) != 0 }
}
/// NaN that the real-number engine treats as NaN
pub const NAN: f64 = f64::NAN;
/// a value that is NaN or symbolic
pub fn maybe_nan(name: &str, lo: i64, hi: i64) -> f64 {
    if flag(&format!("{name}_nan")) {
        NAN
    } else {
        real(name, lo, hi)
    }
}
/// runs f; Err(()) when it panicked (a stopped path keeps unwinding)
pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Stop>() {
                std::panic::resume_unwind(p)
            }
            Err(())
        }
    }
}

/// thorough tier: larger bounds
pub fn thorough() -> bool {
    std::env::var("UP4_TIER").map(|v| v == "thorough").unwrap_or(false)
}
