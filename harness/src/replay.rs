//! Native replay: `replay <entry> <inputs-file> [param...]`
//! inputs file: one token per line, `f <bits hex>`, `c <int>` or `n <int>`.
//! exit 0: all checks held; 10: a check failed; 11: unexpected panic;
//! 12: an assumption does not hold for these inputs; 13: inputs do not fit.
use std::cell::RefCell;
use std::io::Write;

enum Tok {
    F(f64),
    I(usize),
}
struct St {
    toks: Vec<Tok>,
    at: usize,
    params: Vec<usize>,
    expect: Option<String>,
    failed: bool,
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St { toks: vec![], at: 0, params: vec![], expect: None, failed: false });
}
fn out(s: String) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
fn bad(code: i32, msg: &str) -> ! {
    out(msg.to_string());
    std::process::exit(code)
}
fn next() -> Option<(bool, f64, usize)> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.at;
        s.at += 1;
        match s.toks.get(i) {
            Some(Tok::F(x)) => Some((true, *x, 0)),
            Some(Tok::I(x)) => Some((false, 0.0, *x)),
            None => None,
        }
    })
}
unsafe fn lab(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn scale(a: f64, b: f64) -> f64 {
    a.abs().max(b.abs()).max(1.0)
}
const TOL: f64 = 1e-7;
fn verdict(ok: bool, l: String, what: String) {
    if ok {
        out(format!("CHECK {} ok", l));
    } else {
        out(format!("CHECK {} FAIL {}", l, what));
        ST.with(|s| s.borrow_mut().failed = true);
    }
}
#[no_mangle]
pub extern "C" fn sym_f64() -> f64 {
    match next() {
        Some((true, x, _)) => x,
        _ => no_input(),
    }
}
#[no_mangle]
pub extern "C" fn sym_usize() -> usize {
    match next() {
        Some((false, _, x)) => x,
        _ => no_input(),
    }
}
#[no_mangle]
pub extern "C" fn sym_param(i: usize) -> usize {
    ST.with(|s| s.borrow().params.get(i).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_choice(_k: usize) -> usize {
    match next() {
        Some((false, _, x)) => x,
        _ => no_input(),
    }
}
/// the recorded inputs end at the violated check: a failure seen before that is the answer
fn no_input() -> ! {
    let f = ST.with(|s| s.borrow().failed);
    if f {
        bad(10, "RESULT fail")
    }
    bad(13, "INPUT-MISMATCH")
}
fn assume_fail() -> ! {
    let f = ST.with(|s| s.borrow().failed);
    if f {
        bad(10, "RESULT fail")
    }
    bad(12, "ASSUME-FAILED")
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        assume_fail()
    }
}
#[no_mangle]
pub extern "C" fn sym_assume_gt(a: f64, b: f64) {
    if !(a > b - 1e-9 * scale(a, b)) {
        assume_fail()
    }
}
#[no_mangle]
pub extern "C" fn sym_assume_ge(a: f64, b: f64) {
    if !(a >= b - 1e-9 * scale(a, b)) {
        assume_fail()
    }
}
#[no_mangle]
pub extern "C" fn sym_assume_eq(a: f64, b: f64) {
    if !((a - b).abs() <= 1e-9 * scale(a, b)) {
        assume_fail()
    }
}
#[no_mangle]
pub extern "C" fn sym_assume_ne(a: f64, b: f64) {
    if a == b {
        assume_fail()
    }
}
#[no_mangle]
pub extern "C" fn sym_feasible() {}
#[no_mangle]
pub extern "C" fn sym_generic(_on: bool) {}
#[no_mangle]
pub unsafe extern "C" fn sym_check(b: bool, p: *const u8, n: usize) {
    verdict(b, lab(p, n), String::new())
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_eq(a: f64, b: f64, p: *const u8, n: usize) {
    // (an infinity equals only itself)
    let ok = a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= TOL * scale(a, b));
    verdict(ok, lab(p, n), format!("{:e} != {:e}", a, b))
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_le(a: f64, b: f64, p: *const u8, n: usize) {
    verdict(if a.is_finite() && b.is_finite() { a <= b + TOL * scale(a, b) } else { a <= b }, lab(p, n), format!("{:e} > {:e}", a, b))
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_lt(a: f64, b: f64, p: *const u8, n: usize) {
    verdict(a < b, lab(p, n), format!("{:e} >= {:e}", a, b))
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_ne(a: f64, b: f64, p: *const u8, n: usize) {
    verdict(a != b, lab(p, n), format!("{:e} == {:e}", a, b))
}
#[no_mangle]
pub unsafe extern "C" fn sym_observe(a: f64, p: *const u8, n: usize) {
    out(format!("OBS {} {:e}", lab(p, n), a));
}
#[no_mangle]
pub unsafe extern "C" fn sym_expect_panic(p: *const u8, n: usize) {
    let l = lab(p, n);
    ST.with(|s| s.borrow_mut().expect = Some(l));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).expect("inputs");
    let mut toks = vec![];
    for l in txt.lines() {
        let mut w = l.split_whitespace();
        match (w.next(), w.next()) {
            (Some("f"), Some(b)) => toks.push(Tok::F(f64::from_bits(u64::from_str_radix(b, 16).unwrap()))),
            (Some(_), Some(b)) => toks.push(Tok::I(b.parse().unwrap())),
            _ => {}
        }
    }
    let params = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.toks = toks;
        s.params = params;
    });
    std::panic::set_hook(Box::new(|i| out(format!("PANIC {}", i).replace('\n', " "))));
    let f = harness::ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    let r = std::panic::catch_unwind(|| f());
    let (expect, failed) = ST.with(|s| (s.borrow().expect.clone(), s.borrow().failed));
    if failed {
        bad(10, "RESULT fail")
    }
    match (r, expect) {
        (Ok(_), None) => bad(0, "RESULT ok"),
        (Err(_), Some(_)) => bad(0, "RESULT ok (panicked as required)"),
        (Ok(_), Some(l)) => bad(10, &format!("CHECK {} FAIL no panic", l)),
        (Err(_), None) => bad(11, "RESULT panic"),
    }
}
