//! Harness API.  Under the engine these are symbolic; in the native replay
//! binary they read recorded inputs and evaluate the checks in f64.
extern "C" {
    fn sym_f64() -> f64;
    fn sym_usize() -> usize;
    fn sym_param(i: usize) -> usize;
    fn sym_choice(k: usize) -> usize;
    fn sym_assume(b: bool);
    fn sym_assume_gt(a: f64, b: f64);
    fn sym_assume_ge(a: f64, b: f64);
    fn sym_assume_eq(a: f64, b: f64);
    fn sym_assume_ne(a: f64, b: f64);
    fn sym_feasible();
    fn sym_generic(on: bool);
    fn sym_check(b: bool, p: *const u8, n: usize);
    fn sym_check_eq(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_check_le(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_check_lt(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_check_ne(a: f64, b: f64, p: *const u8, n: usize);
    fn sym_observe(a: f64, p: *const u8, n: usize);
    fn sym_expect_panic(p: *const u8, n: usize);
}

/// arbitrary real
pub fn real() -> f64 {
    unsafe { sym_f64() }
}
/// arbitrary positive real
pub fn pos() -> f64 {
    let x = real();
    assume_gt(x, 0.0);
    x
}
/// arbitrary non-negative real
pub fn nonneg() -> f64 {
    let x = real();
    assume_ge(x, 0.0);
    x
}
/// symbolic machine integer; may only flow into conversions to f64 and comparisons
pub fn any_usize() -> usize {
    unsafe { sym_usize() }
}
/// run parameter number i (concrete, but opaque to the optimiser)
pub fn param(i: usize) -> usize {
    unsafe { sym_param(i) }
}
/// non-deterministic choice in 0..k
pub fn choice(k: usize) -> usize {
    unsafe { sym_choice(k) }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn assume_gt(a: f64, b: f64) {
    unsafe { sym_assume_gt(a, b) }
}
pub fn assume_lt(a: f64, b: f64) {
    unsafe { sym_assume_gt(b, a) }
}
pub fn assume_ge(a: f64, b: f64) {
    unsafe { sym_assume_ge(a, b) }
}
pub fn assume_le(a: f64, b: f64) {
    unsafe { sym_assume_ge(b, a) }
}
pub fn assume_eq(a: f64, b: f64) {
    unsafe { sym_assume_eq(a, b) }
}
pub fn assume_ne(a: f64, b: f64) {
    unsafe { sym_assume_ne(a, b) }
}
/// drop the path here if the assumptions made so far contradict each other
pub fn feasible() {
    unsafe { sym_feasible() }
}
/// exclude, from here on, inputs for which a denominator that is not
/// identically zero happens to vanish (stated as a bound of the check)
pub fn generic(on: bool) {
    unsafe { sym_generic(on) }
}
pub fn check(b: bool, l: &str) {
    unsafe { sym_check(b, l.as_ptr(), l.len()) }
}
pub fn check_eq(a: f64, b: f64, l: &str) {
    unsafe { sym_check_eq(a, b, l.as_ptr(), l.len()) }
}
pub fn check_le(a: f64, b: f64, l: &str) {
    unsafe { sym_check_le(a, b, l.as_ptr(), l.len()) }
}
pub fn check_lt(a: f64, b: f64, l: &str) {
    unsafe { sym_check_lt(a, b, l.as_ptr(), l.len()) }
}
pub fn check_ne(a: f64, b: f64, l: &str) {
    unsafe { sym_check_ne(a, b, l.as_ptr(), l.len()) }
}
pub fn observe(a: f64, l: &str) {
    unsafe { sym_observe(a, l.as_ptr(), l.len()) }
}
/// from here on the only acceptable continuation is a panic
pub fn expect_panic(l: &str) {
    unsafe { sym_expect_panic(l.as_ptr(), l.len()) }
}

use ellalgo_rs::arr::Arr;

pub fn vec_real(n: usize) -> Arr {
    let mut v = Arr::new(n);
    for i in 0..n {
        v[i] = real();
    }
    v
}

/// arbitrary symmetric matrix
pub fn sym_mat(n: usize) -> Arr {
    let mut m = Arr::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let v = real();
            m.set(i, j, v);
            m.set(j, i, v);
        }
    }
    m
}
