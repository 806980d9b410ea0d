//! LDLT factorisation, LMI oracles, array type, conjugate gradient, power iteration.
use crate::sym::*;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::cutting_plane::{OracleFeas, SingleCut};
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::power_iteration as pi;

/// determinant of the leading k x k block
fn minor(m: &Arr, k: usize) -> f64 {
    fn go(m: &Arr, k: usize, row: usize, used: usize) -> f64 {
        if row == k {
            return 1.0;
        }
        let mut s = 0.0;
        let mut sign = 1.0;
        for c in 0..k {
            if used >> c & 1 == 0 {
                s += sign * m.at(row, c) * go(m, k, row + 1, used | 1 << c);
                sign = -sign;
            }
        }
        s
    }
    go(m, k, 0, 0)
}
fn quad(m: &Arr, v: &[f64], from: usize, to: usize) -> f64 {
    let mut s = 0.0;
    for i in from..to {
        for j in from..to {
            s += v[i] * m.at(i, j) * v[j];
        }
    }
    s
}
/// positive definite by Sylvester's criterion
fn check_pd(m: &Arr, n: usize, l: &str) {
    for k in 1..=n {
        check_lt(0.0, minor(m, k), l);
    }
}

fn ldlt_checks(g: &mut LDLTMgr, ok: bool, a: &Arr, n: usize, what: usize) {
    check(g.is_spd() == ok, "the verdict is kept");
    if ok {
        if what == 0 {
            check_pd(a, n, "accepted only if positive definite");
        }
        if what == 2 {
            let r = g.sqrt();
            check(r.rows() == n && r.cols() == n, "factor has the matrix's size");
            for i in 0..n {
                check_lt(0.0, r.at(i, i), "factor has a positive diagonal");
                for j in 0..n {
                    if j < i {
                        check_eq(r.at(i, j), 0.0, "factor is upper triangular");
                    }
                    let mut s = 0.0;
                    for k in 0..n {
                        s += r.at(k, i) * r.at(k, j);
                    }
                    check_eq(s, a.at(i, j), "factor reproduces the matrix");
                }
            }
            expect_panic("no witness for a positive definite matrix");
            g.witness();
        }
    } else {
        let (s, e) = g.pos;
        check(s == 0 && e >= 1 && e <= n, "the offending block is reported");
        if what == 0 {
            for k in 1..e {
                check_lt(0.0, minor(a, k), "the offending block is the first one");
            }
            check_le(minor(a, e), 0.0, "refused only if not positive definite");
        }
        if what == 1 {
            let ep = g.witness();
            let v = g.wit.data().to_vec();
            check_le(0.0, ep, "witness value is non-negative");
            check_eq(quad(a, &v, s, e), -ep, "witness certifies: v'Av = -ep");
            let mut w = 0.0;
            for i in s..e {
                w += v[i] * v[i];
            }
            check_lt(0.0, w, "witness is not the zero vector");
            let b = sym_mat(n);
            check_eq(g.sym_quad(&b), quad(&b, &v, s, e), "quadratic form at the witness");
            observe(ep, "ep");
        }
        if what == 2 {
            expect_panic("no square root for a matrix that is not positive definite");
            g.sqrt();
        }
    }
}

/// params: n, what (0 decision, 1 witness, 2 square root), 0 matrix / 1 lazy
pub fn h_ldlt() {
    let (n, what, lazy) = (param(0), param(1), param(2) == 1);
    let a = sym_mat(n);
    let mut g = LDLTMgr::new(n);
    let far = std::cell::Cell::new(0);
    let ok = if lazy {
        g.factor(|i, j| {
            far.set(far.get().max(i + 1).max(j + 1));
            a.at(i, j)
        })
    } else {
        g.factorize(&a)
    };
    if lazy {
        check(far.get() <= if ok { n } else { g.pos.1 }, "nothing beyond the refused block is fetched");
    }
    ldlt_checks(&mut g, ok, &a, n, what);
}

/// Every symmetric matrix of size n whose leading minors of size 1..e-1 are positive and whose e-th one is not
/// (e = 0: all are positive), parametrised by the factors of that block; entries outside it are free.
/// Over e = 0..=n these are all symmetric matrices.  Returns the matrix and the e-th pivot.
pub fn ldl_mat(n: usize, e: usize) -> (Arr, f64) {
    ldl_mat_of(n, e, 0)
}
/// fix = 1: only the pivots, the first column, the last row and what is outside the block are arbitrary, the rest of
/// the factor is a fixed dense pattern
pub fn ldl_mat_of(n: usize, e: usize, fix: usize) -> (Arr, f64) {
    let m = if e == 0 { n } else { e };
    let mut l = Arr::zeros(n, n);
    let mut d = vec![];
    for i in 0..m {
        l.set(i, i, 1.0);
        for j in 0..i {
            let free = fix == 0 || j == 0 || i + 1 == m;
            l.set(i, j, if free { real() } else { (((i * 7 + j * 3) % 4) as f64 - 1.5) / 2.0 });
        }
        let x = real();
        if i + 1 == e {
            assume_le(x, 0.0);
        } else {
            assume_gt(x, 0.0);
        }
        d.push(x);
    }
    let mut a = Arr::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let mut v = 0.0;
            if i < m {
                for k in 0..=j {
                    v += l.at(i, k) * d[k] * l.at(j, k);
                }
            } else {
                v = real();
            }
            a.set(i, j, v);
            a.set(j, i, v);
        }
    }
    (a, d[m - 1])
}

/// params: n, e, what (0 decision, 1 witness, 2 square root), fix: the same questions for larger matrices
pub fn h_ldlt_big() {
    let (n, e, what) = (param(0), param(1), param(2));
    let (a, d) = ldl_mat_of(n, e, param(3));
    let mut g = LDLTMgr::new(n);
    let ok = g.factor(|i, j| a.at(i, j));
    check(g.is_spd() == ok, "the verdict is kept");
    check(ok == (e == 0), "accepted exactly if positive definite");
    if !ok {
        check(g.pos == (0, e), "the offending block is the first one");
    }
    if what == 0 {
        return;
    }
    if what == 1 && !ok {
        let ep = g.witness();
        let v = g.wit.data().to_vec();
        check_eq(ep, -d, "witness value");
        check_eq(quad(&a, &v, 0, e), -ep, "witness certifies: v'Av = -ep");
        let mut nz = false;
        for i in 0..e {
            if v[i] != 0.0 {
                nz = true;
                break;
            }
        }
        check(nz, "witness is not the zero vector");
        let b = sym_mat(n);
        check_eq(g.sym_quad(&b), quad(&b, &v, 0, e), "quadratic form at the witness");
    }
    if what == 2 && ok {
        ldlt_checks(&mut g, ok, &a, n, 2);
    }
}

/// params: size of a leading block with positive pivots and a zero last one (0: none), size of the block after it,
/// e (where that one is refused, 0: not at all); the entries coupling the two are arbitrary
pub fn h_ldlt_semi_big() {
    let (k, m, e) = (param(0), param(1), param(2));
    let n = k + m;
    let mut a = Arr::zeros(n, n);
    let mut d = 0.0;
    if k > 0 {
        let (p, x) = ldl_mat(k, k);
        assume_eq(x, 0.0);
        for i in 0..k {
            for j in 0..k {
                a.set(i, j, p.at(i, j));
            }
        }
    }
    if m > 0 {
        let (p, x) = ldl_mat(m, e);
        assume_ne(x, 0.0);
        d = x;
        for i in 0..m {
            for j in 0..m {
                a.set(k + i, k + j, p.at(i, j));
            }
        }
        for i in 0..k {
            for j in 0..m {
                let x = real();
                a.set(i, k + j, x);
                a.set(k + j, i, x);
            }
        }
    }
    let mut g = LDLTMgr::new(n);
    let ok = g.factor_with_allow_semidefinite(|i, j| a.at(i, j));
    check(ok == g.is_spd(), "the verdict is kept");
    check(ok == (e == 0), "refused exactly at a negative pivot");
    if !ok {
        check(g.pos == (k, k + e), "the offending block is reported");
        let ep = g.witness();
        let v = g.wit.data().to_vec();
        check_eq(ep, -d, "refusal comes with a strictly negative direction");
        check_eq(quad(&a, &v, k, k + e), -ep, "refusal comes with a strictly negative direction");
        let b = sym_mat(n);
        check_eq(g.sym_quad(&b), quad(&b, &v, k, k + e), "quadratic form at the witness");
    }
}

/// params: n, block refused first, block refused second, variant: reuse of one manager for two larger matrices
pub fn h_ldlt_reuse_big() {
    let (n, e1, e2) = (param(0), param(1), param(2));
    let (a, _) = ldl_mat(n, e1);
    let (b, d) = ldl_mat(n, e2);
    let mut g = LDLTMgr::new(n);
    if !g.factorize(&a) {
        g.witness();
    }
    let ok = g.factorize(&b);
    check(ok == (e2 == 0), "earlier matrices do not influence the verdict");
    if ok {
        ldlt_checks(&mut g, ok, &b, n, 2);
    } else {
        check(g.pos == (0, e2), "earlier matrices do not influence the verdict");
        let ep = g.witness();
        check_eq(ep, -d, "earlier matrices do not influence the witness");
        let v = g.wit.data().to_vec();
        check_eq(quad(&b, &v, 0, e2), -ep, "earlier matrices do not influence the witness");
        let c = sym_mat(n);
        check_eq(g.sym_quad(&c), quad(&c, &v, 0, e2), "quadratic form at the witness");
    }
}

/// params: n, 0 plain / 1 semidefinite variant first / 2 second / 3 both.  A reused manager answers like a fresh one.
pub fn h_ldlt_reuse() {
    let (n, var) = (param(0), param(1));
    let a = sym_mat(n);
    let b = sym_mat(n);
    let mut g = LDLTMgr::new(n);
    let first = if var == 1 || var == 3 { g.factor_with_allow_semidefinite(|i, j| a.at(i, j)) } else { g.factorize(&a) };
    if !first {
        g.witness();
    }
    let mut f = LDLTMgr::new(n);
    let (x, y) = if var >= 2 {
        (
            g.factor_with_allow_semidefinite(|i, j| b.at(i, j)),
            f.factor_with_allow_semidefinite(|i, j| b.at(i, j)),
        )
    } else {
        (g.factorize(&b), f.factorize(&b))
    };
    check(x == y, "earlier matrices do not influence the verdict");
    check(g.pos == f.pos, "earlier matrices do not influence the verdict");
    if !x {
        check_eq(g.witness(), f.witness(), "earlier matrices do not influence the witness");
        for i in f.pos.0..f.pos.1 {
            check_eq(g.wit[i], f.wit[i], "earlier matrices do not influence the witness");
        }
        let c = sym_mat(n);
        check_eq(g.sym_quad(&c), f.sym_quad(&c), "earlier matrices do not influence the quadratic form");
    } else if var < 2 {
        let (r, q) = (g.sqrt(), f.sqrt());
        for i in 0..n * n {
            check_eq(r[i], q[i], "earlier matrices do not influence the factor");
        }
    }
}

/// params: n, mode 0: a refusal comes with a strictly negative direction; 1: every Gram matrix is accepted;
/// 2: agrees with the strict variant whenever that one meets no zero pivot
pub fn h_ldlt_semi() {
    let (n, mode) = (param(0), param(1));
    let mut g = LDLTMgr::new(n);
    if mode == 1 {
        let mut l = Arr::zeros(n, n);
        for i in 0..n {
            for j in 0..=i {
                l.set(i, j, real());
            }
        }
        let a = |i: usize, j: usize| {
            let mut s = 0.0;
            for k in 0..=(if i < j { i } else { j }) {
                s += l.at(i, k) * l.at(j, k);
            }
            s
        };
        let mut m = Arr::zeros(n, n);
        for i in 0..n {
            for j in 0..n {
                m.set(i, j, a(i, j));
            }
        }
        let ok = g.factor_with_allow_semidefinite(|i, j| m.at(i, j));
        check(ok, "every positive semidefinite matrix is accepted");
        check(g.is_spd(), "every positive semidefinite matrix is accepted");
        return;
    }
    let a = sym_mat(n);
    let ok = g.factor_with_allow_semidefinite(|i, j| a.at(i, j));
    check(ok == g.is_spd(), "the verdict is kept");
    if mode == 2 {
        let mut f = LDLTMgr::new(n);
        let strict = f.factorize(&a);
        if strict {
            check(ok, "positive definite matrices are accepted");
            let (r, q) = (g.sqrt(), f.sqrt());
            for i in 0..n * n {
                check_eq(r[i], q[i], "same factor as the strict variant");
            }
        } else {
            check(true, "positive definite matrices are accepted");
        }
        return;
    }
    if !ok {
        let (s, e) = g.pos;
        check(s < e && e <= n, "the offending block is reported");
        let ep = g.witness();
        let v = g.wit.data().to_vec();
        check_lt(0.0, ep, "refusal comes with a strictly negative direction");
        check_eq(quad(&a, &v, s, e), -ep, "refusal comes with a strictly negative direction");
    } else {
        check_le(0.0, a.at(0, 0), "a matrix with a negative first entry is refused");
    }
}

enum Lmi {
    New(LMIOracle),
    Old(LMIOldOracle),
    Zero(LMI0Oracle),
}
impl Lmi {
    fn mk(w: usize, f: &Vec<Arr>, b: &Arr) -> Lmi {
        match w {
            0 => Lmi::New(LMIOracle::new(f.clone(), b.clone())),
            1 => Lmi::Old(LMIOldOracle::new(f.clone(), b.clone())),
            _ => Lmi::Zero(LMI0Oracle::new(f.clone())),
        }
    }
    fn ask(&mut self, x: &Arr) -> Option<(Arr, f64)> {
        match self {
            Lmi::New(o) => o.assess_feas(x).map(|(g, SingleCut(b))| (g, b)),
            Lmi::Old(o) => o.assess_feas(x).map(|(g, SingleCut(b))| (g, b)),
            Lmi::Zero(o) => o.assess_feas(x),
        }
    }
}
/// value of the constraint matrix at y
fn lmi_at(w: usize, f: &Vec<Arr>, b: &Arr, y: &Arr, nd: usize) -> Arr {
    let mut m = Arr::zeros(nd, nd);
    for i in 0..nd {
        for j in 0..nd {
            let mut s = if w == 2 { 0.0 } else { b.at(i, j) };
            for k in 0..f.len() {
                if w == 2 {
                    s += f[k].at(i, j) * y[k];
                } else {
                    s -= f[k].at(i, j) * y[k];
                }
            }
            m.set(i, j, s);
        }
    }
    m
}
/// an LMI whose constraint matrix at x is the arbitrary symmetric matrix m
fn lmi_world(w: usize, nd: usize, n: usize) -> (Vec<Arr>, Arr, Arr, Arr) {
    let m = sym_mat(nd);
    lmi_with(w, nd, n, m)
}
fn lmi_with(w: usize, nd: usize, n: usize, m: Arr) -> (Vec<Arr>, Arr, Arr, Arr) {
    let x = vec_real(n);
    let mut f: Vec<Arr> = (0..n).map(|_| sym_mat(nd)).collect();
    let mut b = Arr::zeros(nd, nd);
    if w == 2 {
        // sum f_k x_k = m: solve for f_0
        assume_ne(x[0], 0.0);
        for i in 0..nd {
            for j in 0..nd {
                let mut s = m.at(i, j);
                for k in 1..n {
                    s -= f[k].at(i, j) * x[k];
                }
                f[0].set(i, j, s / x[0]);
            }
        }
    } else {
        for i in 0..nd {
            for j in 0..nd {
                let mut s = m.at(i, j);
                for k in 0..n {
                    s += f[k].at(i, j) * x[k];
                }
                b.set(i, j, s);
            }
        }
    }
    (f, b, x, m)
}

/// params: which (0 LMIOracle, 1 LMIOldOracle, 2 LMI0Oracle), matrix size, number of variables
pub fn h_lmi() {
    let (w, nd, n) = (param(0), param(1), param(2));
    let (f, b, x, m) = lmi_world(w, nd, n);
    let mut o = Lmi::mk(w, &f, &b);
    match o.ask(&x) {
        None => check_pd(&m, nd, "accepted only if the matrix is positive definite"),
        Some((g, beta)) => {
            // refused: some leading block is not positive definite
            let mut t = LDLTMgr::new(nd);
            let ok = t.factorize(&m);
            check(!ok, "refused only if the matrix is not positive definite");
            check(g.len() == n, "one gradient entry per variable");
            check_le(0.0, beta, "the cut passes through the point or removes it");
            let y = vec_real(n);
            let my = lmi_at(w, &f, &b, &y, nd);
            let mut lhs = beta;
            for k in 0..n {
                lhs += g[k] * (y[k] - x[k]);
            }
            // for every vector v, v'A(y)v >= 0 at a point y where A(y) is positive semidefinite
            t.witness();
            let v = t.wit.data().to_vec();
            let q = quad(&my, &v, t.pos.0, t.pos.1);
            if lhs == -q {
                check(true, "the cut keeps every point that satisfies the inequality");
            } else {
                let mut l = Arr::zeros(nd, nd);
                for i in 0..nd {
                    for j in 0..=i {
                        l.set(i, j, real());
                    }
                }
                for i in 0..nd {
                    for j in 0..=i {
                        let mut s = 0.0;
                        for k in 0..=j {
                            s += l.at(i, k) * l.at(j, k);
                        }
                        assume_eq(my.at(i, j), s);
                    }
                }
                check_le(lhs, 0.0, "the cut keeps every point that satisfies the inequality");
            }
            // the refusal is explained by the cut: the value at the point itself is -beta
            let mut at = quad(&m, &v, t.pos.0, t.pos.1);
            at += beta;
            check_eq(at, 0.0, "the depth of the cut is the violation");
        }
    }
}

/// params: which, matrix size, number of variables, e, fix: larger inequalities whose first e-1 leading minors are
/// positive at the query point and whose e-th is not (e = 0: all positive)
pub fn h_lmi_big() {
    let (w, nd, n, e) = (param(0), param(1), param(2), param(3));
    let (m, d) = ldl_mat_of(nd, e, param(4));
    let (f, b, x, m) = lmi_with(w, nd, n, m);
    let mut o = Lmi::mk(w, &f, &b);
    match o.ask(&x) {
        None => check(e == 0, "accepted only if the matrix is positive definite"),
        Some((g, beta)) => {
            check(e != 0, "refused only if the matrix is not positive definite");
            check(g.len() == n, "one gradient entry per variable");
            check_eq(beta, -d, "the depth of the cut is the violation");
            // v = the solution of M v = d e_e on the leading block, v_e = 1
            let mut t = LDLTMgr::new(nd);
            t.factorize(&m);
            t.witness();
            let v = t.wit.data().to_vec();
            for i in 0..e {
                let mut s = 0.0;
                for j in 0..e {
                    s += m.at(i, j) * v[j];
                }
                check_eq(s, if i + 1 == e { d } else { 0.0 }, "direction of violation");
            }
            let y = vec_real(n);
            let my = lmi_at(w, &f, &b, &y, nd);
            let mut lhs = beta;
            for k in 0..n {
                lhs += g[k] * (y[k] - x[k]);
            }
            check_eq(lhs, -quad(&my, &v, 0, e), "the cut keeps every point that satisfies the inequality");
        }
    }
}

/// params: which, matrix size, e before, e now: the constraint matrix is arbitrary at two points; the answer at the
/// second does not depend on the query at the first
pub fn h_lmi_seq() {
    let (w, nd, e1, e2) = (param(0), param(1), param(2), param(3));
    let (m1, _) = ldl_mat(nd, e1);
    let (m2, _) = ldl_mat(nd, e2);
    let (mut x1, mut x2) = (Arr::new(2), Arr::new(2));
    let f = if w == 2 {
        x1[0] = 1.0;
        x2[1] = 1.0;
        vec![m1.clone(), m2.clone()]
    } else {
        // B - F0 x0 - F1 x1 with B = m1 at the origin and m2 at (1, 0)
        x2[0] = 1.0;
        vec![&m1 - &m2, sym_mat(nd)]
    };
    let mut o = Lmi::mk(w, &f, &m1);
    let mut fresh = Lmi::mk(w, &f, &m1);
    check(o.ask(&x1).is_none() == (e1 == 0), "accepted exactly if the matrix is positive definite");
    let r = o.ask(&x2);
    check(r.is_none() == (e2 == 0), "accepted exactly if the matrix is positive definite");
    same_answer(r, fresh.ask(&x2), "earlier queries do not influence the answer");
    same_answer(o.ask(&x1), Lmi::mk(w, &f, &m1).ask(&x1), "earlier queries do not influence the answer");
}

/// params: which, matrix size, number of variables: a second query does not depend on the first
pub fn h_lmi_repeat() {
    let (w, nd, n) = (param(0), param(1), param(2));
    let (f, b, x, m) = lmi_world(w, nd, n);
    let mut o = Lmi::mk(w, &f, &b);
    let mut fresh = Lmi::mk(w, &f, &b);
    // the earlier query: shift the answer matrix arbitrarily along f_0
    let mut x1 = x.clone();
    x1[n - 1] = real();
    let _ = m;
    o.ask(&x1);
    same_answer(o.ask(&x), fresh.ask(&x), "earlier queries do not influence the answer");
}
fn same_answer(a: Option<(Arr, f64)>, b: Option<(Arr, f64)>, l: &str) {
    match (a, b) {
        (None, None) => check(true, l),
        (Some((g, p)), Some((h, q))) => {
            check_eq(p, q, l);
            check(g.len() == h.len(), l);
            for k in 0..g.len() {
                check_eq(g[k], h[k], l);
            }
        }
        _ => check(false, l),
    }
}
/// params: matrix size, number of variables: the eager oracle answers like the lazy one
pub fn h_lmi_same() {
    let (nd, n) = (param(0), param(1));
    let (f, b, x, _) = lmi_world(0, nd, n);
    let mut o = Lmi::mk(0, &f, &b);
    let mut p = Lmi::mk(1, &f, &b);
    same_answer(o.ask(&x), p.ask(&x), "both oracles give the same answer");
    // the homogeneous form with the constant as first matrix and -F_k after it, at (1, x)
    let mut h = vec![b.clone()];
    for k in 0..n {
        h.push(-&f[k]);
    }
    let mut x1 = Arr::new(n + 1);
    x1[0] = 1.0;
    for k in 0..n {
        x1[k + 1] = x[k];
    }
    let mut z = Lmi::mk(2, &h, &b);
    match (z.ask(&x1), p.ask(&x)) {
        (None, None) => check(true, "the homogeneous oracle gives the same answer"),
        (Some((g, p)), Some((q, r))) => {
            check_eq(p, r, "the homogeneous oracle gives the same answer");
            for k in 0..n {
                check_eq(g[k + 1], q[k], "the homogeneous oracle gives the same answer");
            }
        }
        _ => check(false, "the homogeneous oracle gives the same answer"),
    }
}

// ---------------------------------------------------------------- arrays
fn mat_real(r: usize, c: usize) -> Arr {
    let mut m = Arr::zeros(r, c);
    for i in 0..r * c {
        m[i] = real();
    }
    m
}
fn any_arr(r: usize, c: usize) -> Arr {
    if c == 0 {
        vec_real(r)
    } else {
        mat_real(r, c)
    }
}
fn elem(x: &Arr, r: usize, c: usize, l: &str, f: impl Fn(usize) -> f64) {
    check(x.rows() == r && x.cols() == c, l);
    check(x.len() == if c == 0 { r } else { r * c }, l);
    for k in 0..x.len() {
        check_eq(x[k], f(k), l);
    }
}
/// params: rows, cols (0: vector)
pub fn h_arr() {
    let (r, c) = (param(0), param(1));
    let a = any_arr(r, c);
    let b = any_arr(r, c);
    let s = real();
    let (a0, b0) = (a.data().to_vec(), b.data().to_vec());
    elem(&(&a + &b), r, c, "sum", |k| a0[k] + b0[k]);
    elem(&(a.clone() + &b), r, c, "sum", |k| a0[k] + b0[k]);
    elem(&(&a - &b), r, c, "difference", |k| a0[k] - b0[k]);
    elem(&(a.clone() - &b), r, c, "difference", |k| a0[k] - b0[k]);
    elem(&(&a * &b), r, c, "elementwise product", |k| a0[k] * b0[k]);
    elem(&(a.clone() * &b), r, c, "elementwise product", |k| a0[k] * b0[k]);
    elem(&(&a * s), r, c, "scaling", |k| a0[k] * s);
    elem(&(a.clone() * s), r, c, "scaling", |k| a0[k] * s);
    elem(&(s * &a), r, c, "scaling", |k| a0[k] * s);
    elem(&(s * a.clone()), r, c, "scaling", |k| a0[k] * s);
    elem(&(-&a), r, c, "negation", |k| -a0[k]);
    elem(&(-a.clone()), r, c, "negation", |k| -a0[k]);
    let mut t = a.clone();
    t += &b;
    elem(&t, r, c, "sum in place", |k| a0[k] + b0[k]);
    let mut t = a.clone();
    t -= &b;
    elem(&t, r, c, "difference in place", |k| a0[k] - b0[k]);
    let mut t = a.clone();
    t += s;
    elem(&t, r, c, "shift in place", |k| a0[k] + s);
    let mut t = a.clone();
    t -= s;
    elem(&t, r, c, "shift in place", |k| a0[k] - s);
    let mut t = a.clone();
    t *= s;
    elem(&t, r, c, "scaling in place", |k| a0[k] * s);
    let mut t = b.clone();
    t.copy_from(&a);
    elem(&t, r, c, "copy", |k| a0[k]);
    elem(&a.map(|x| 3.0 * x + s), r, c, "map", |k| 3.0 * a0[k] + s);
    elem(&a, r, c, "operands are left alone", |k| a0[k]);
    elem(&b, r, c, "operands are left alone", |k| b0[k]);
    let mut sum = 0.0;
    for k in 0..a.len() {
        sum += a0[k];
    }
    check_eq(a.sum(), sum, "sum of the entries");
    elem(&arr::make_same_shape(&a), r, c, "fresh array of the same shape", |_| 0.0);
    if param(2) == 0 {
        elem(&arr::abs(&a), r, c, "absolute values", |k| if a0[k] < 0.0 { -a0[k] } else { a0[k] });
    }
    check(a.size() == a.len() && a.is_2d() == (c > 0) && a.is_empty() == (a.len() == 0), "shape queries");
    check(a == a.clone(), "equality is reflexive");
    let mut t = a.clone();
    if t.len() > 0 {
        let k = choice(t.len());
        t[k] += 1.0;
        check(!(a == t), "arrays with different entries differ");
    }
    let d = real();
    assume_ne(d, 0.0);
    elem(&(&a / d), r, c, "division by a scalar", |k| a0[k] / d);
    elem(&(a.clone() / d), r, c, "division by a scalar", |k| a0[k] / d);
    let mut t = a.clone();
    t /= d;
    elem(&t, r, c, "division by a scalar", |k| a0[k] / d);
}

/// elementwise functions and ranges
/// params: shape
pub fn h_arr_fun() {
    let (r, c) = (param(0), param(1));
    let a = any_arr(r, c);
    let a0 = a.data().to_vec();
    let mut p = a.clone();
    for k in 0..p.len() {
        p[k] = pos();
    }
    let p0 = p.data().to_vec();
    elem(&arr::exp(&a), r, c, "elementwise exponential", |k| a0[k].exp());
    elem(&arr::ln(&p), r, c, "elementwise logarithm", |k| p0[k].ln());
    elem(&arr::sqrt(&p), r, c, "elementwise square root", |k| p0[k].sqrt());
    elem(&a, r, c, "operands are left alone", |k| a0[k]);
    elem(&p, r, c, "operands are left alone", |k| p0[k]);
    // fixed values for the cosine
    let mut q = a.clone();
    for k in 0..q.len() {
        q[k] = (k * k) as f64 * 0.75 - 1.0;
    }
    let q0 = q.data().to_vec();
    elem(&arr::cos(&q), r, c, "elementwise cosine", |k| q0[k].cos());
    let s = real();
    elem(&arr::arange(s, s + r as f64), r, 0, "unit-spaced points", |k| s + k as f64);
    let e = real();
    assume_le(e, s);
    elem(&arr::arange(s, e), 0, 0, "an empty range", |_| 0.0);
}

/// params: n: products, outer products, rank-one update, indexing, constructors
pub fn h_arr_prod() {
    let (r, c) = (param(0), param(1));
    let m = mat_real(r, c);
    let x = vec_real(c);
    let y = vec_real(r);
    let z = m.dot_mv(&x);
    elem(&z, r, 0, "matrix times vector", |i| {
        let mut s = 0.0;
        for j in 0..c {
            s += m.at(i, j) * x[j];
        }
        s
    });
    let o = y.outer(&x);
    elem(&o, r, c, "outer product", |k| y[k / c] * x[k % c]);
    let w = vec_real(c);
    let mut s = 0.0;
    for j in 0..c {
        s += w[j] * x[j];
    }
    check_eq(w.dot(&x), s, "dot product");
    let how = choice(3);
    for i in 0..r {
        elem(&m.row(i), c, 0, "row", |j| m[(i, j)]);
        for j in 0..c {
            check_eq(m.get(i, j), m.data()[i * c + j], "row-major layout");
            check_eq(m[(i, j)], m.data()[i * c + j], "row-major layout");
            let mut t = m.clone();
            let v = real();
            match how {
                0 => t.set(i, j, v),
                1 => *t.at_mut(i, j) = v,
                _ => t[(i, j)] = v,
            }
            elem(&t, r, c, "writing one entry changes only that one", |k| if k == i * c + j { v } else { m[k] });
        }
    }
    let (s, e) = (real(), real());
    if c > 1 {
        let l = arr::linspace(s, e, c);
        elem(&l, c, 0, "evenly spaced points", |k| s + (e - s) * (k as f64) / ((c - 1) as f64));
    } else {
        elem(&arr::linspace(s, e, 1), 1, 0, "evenly spaced points", |_| s);
    }
    elem(&arr::linspace(s, e, 0), 0, 0, "evenly spaced points", |_| 0.0);
    elem(&Arr::from_diag(&x), c, c, "diagonal matrix", |k| if k / c == k % c { x[k / c] } else { 0.0 });
    elem(&Arr::eye(c), c, c, "identity matrix", |k| if k / c == k % c { 1.0 } else { 0.0 });
    elem(&Arr::full(r, c, s), r, c, "constant matrix", |_| s);
    elem(&Arr::ones(c), c, 0, "vector of ones", |_| 1.0);
    elem(&Arr::zeros(r, c), r, c, "zero matrix", |_| 0.0);
    elem(&Arr::new(c), c, 0, "zero vector", |_| 0.0);
    elem(&Arr::from(x.data().to_vec()), c, 0, "vector from entries", |k| x[k]);
    elem(&<Arr as From<&[f64]>>::from(x.data()), c, 0, "vector from entries", |k| x[k]);
    elem(&Arr::from_fn(c, |k| x[k] + 1.0), c, 0, "vector from a rule", |k| x[k] + 1.0);
    elem(&Arr::from_shape_vec(r, c, m.data().to_vec()), r, c, "matrix from entries", |k| m[k]);
    elem(&Arr::with_data(m.data().to_vec(), r, c), r, c, "matrix from entries", |k| m[k]);
    // shapes tell arrays apart even when the entries agree
    if r > 0 {
        check(!(Arr::from(m.data().to_vec()) == m), "a vector differs from a matrix");
    }
}
/// params: n: rank-one update of a symmetric matrix
pub fn h_arr_rank1() {
    let n = param(0);
    let m = sym_mat(n);
    let u = vec_real(n);
    let a = real();
    let mut t = m.clone();
    t.rank_one_update(a, &u);
    elem(&t, n, n, "rank-one update", |k| m[k] + a * u[k / n] * u[k % n]);
}
/// params: which operation, size, other size
pub fn h_arr_bad() {
    let (op, n, k) = (param(0), param(1), param(2));
    let a = vec_real(n);
    let b = vec_real(k);
    let m = mat_real(n, n + 1);
    let l = "operands of different sizes are refused";
    expect_panic(l);
    match op {
        0 => drop(&a + &b),
        1 => drop(&a - &b),
        2 => drop(&a * &b),
        3 => drop(a.clone() + &b),
        4 => drop(a.clone() - &b),
        5 => drop(a.clone() * &b),
        6 => {
            let mut t = a.clone();
            t += &b;
        }
        7 => {
            let mut t = a.clone();
            t -= &b;
        }
        8 => {
            let mut t = a.clone();
            t.copy_from(&b);
        }
        9 => {
            a.dot(&b);
        }
        10 => {
            mat_real(n, n).dot_mv(&b);
        }
        11 => {
            mat_real(n, n).rank_one_update(1.0, &b);
        }
        12 => drop(Arr::from_shape_vec(n, k, a.data().to_vec())),
        13 => drop(Arr::with_data(a.data().to_vec(), n, k)),
        14 => drop(m.row(n)),
        15 => drop(a.row(0)),
        16 => drop(m.outer(&a)),
        17 => drop(a.outer(&m)),
        18 => drop(Arr::from_diag(&m)),
        19 => {
            m.dot(&m);
        }
        20 => {
            a.dot_mv(&a);
        }
        21 => {
            let mut t = a.clone();
            t.rank_one_update(1.0, &a);
        }
        22 => drop(a[n]),
        _ => drop(mat_real(n, n).dot_mv(&mat_real(n, n))),
    }
}

// ---------------------------------------------------------------- conjugate gradient
/// the textbook recurrence
fn cg_model(a: &Arr, b: &Arr, x0: &Arr, tol: f64, k: usize) -> Option<Arr> {
    let n = b.len();
    let mut x = x0.clone();
    let mut r = b - &a.dot_mv(&x);
    let mut p = r.clone();
    let mut rr = r.dot(&r);
    if rr < tol * tol {
        return Some(x);
    }
    for _ in 0..k {
        let ap = a.dot_mv(&p);
        let pap = p.dot(&ap);
        if pap == 0.0 {
            return None;
        }
        let al = rr / pap;
        for i in 0..n {
            x[i] += al * p[i];
            r[i] -= al * ap[i];
        }
        let r2 = r.dot(&r);
        if r2 < tol * tol {
            return Some(x);
        }
        let be = r2 / rr;
        for i in 0..n {
            p[i] = r[i] + be * p[i];
        }
        rr = r2;
    }
    None
}
/// params: n, max_iter, start given (1) or not (0), what (0 any matrix: an answer solves the system;
/// 1 positive definite: n steps suffice; 2 the same for diagonal matrices; 3 for one fixed matrix; 4, 5 with one unknown
/// entry of the residual or the matrix; 6 only the tolerance and the start are unknown)
pub fn h_cg() {
    let (n, k, start, what) = (param(0), param(1), param(2), param(3));
    let mut a = sym_mat(n);
    if what >= 3 {
        a = Arr::zeros(n, n);
        for i in 0..n {
            a.set(i, i, (i + 2) as f64);
            if i > 0 {
                a.set(i, i - 1, 1.0);
                a.set(i - 1, i, 1.0);
            }
        }
    }
    if what == 2 {
        a = Arr::zeros(n, n);
        for i in 0..n {
            a.set(i, i, pos());
        }
    }
    if what == 1 {
        // unit lower triangular times positive diagonal: every positive definite matrix
        let mut l = Arr::eye(n);
        let mut d = Arr::new(n);
        for i in 0..n {
            d[i] = pos();
            for j in 0..i {
                l.set(i, j, real());
            }
        }
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for t in 0..n {
                    s += l.at(i, t) * d[t] * l.at(j, t);
                }
                a.set(i, j, s);
            }
        }
    }
    if what == 5 {
        // one unknown entry of the matrix
        a.set(n - 1, n - 1, n as f64 + pos());
    }
    let tol = pos();
    // the right-hand side is written as A x0 + r0 for an arbitrary initial residual r0: no loss of generality
    let x0 = if start == 1 { vec_real(n) } else { Arr::new(n) };
    let mut b = vec_real(n);
    if what >= 4 {
        for i in 0..n {
            b[i] = (i * i % 5) as f64 + 1.0;
        }
        if what == 4 {
            b[1] = real();
        }
    }
    for i in 0..n {
        for j in 0..n {
            b[i] += a.at(i, j) * x0[j];
        }
    }
    let r = conjugate_gradient(&a, &b, if start == 1 { Some(&x0) } else { None }, tol, k);
    if what == 0 || what >= 3 {
        match (&r, cg_model(&a, &b, &x0, tol, k)) {
            (Ok(x), Some(y)) => {
                for i in 0..n {
                    check_eq(x[i], y[i], "the answer is the first iterate within the tolerance");
                }
            }
            (Err(_), None) => check(true, "the answer is the first iterate within the tolerance"),
            _ => check(false, "the answer is the first iterate within the tolerance"),
        }
    }
    match r {
        Ok(x) => {
            check(x.len() == n, "solution has the right size");
            let mut q = 0.0;
            for i in 0..n {
                let mut s = b[i];
                for j in 0..n {
                    s -= a.at(i, j) * x[j];
                }
                q += s * s;
            }
            check_lt(q, tol * tol, "an answer solves the system within the tolerance");
        }
        Err(_) => {
            if what >= 1 {
                check(k < n, "a positive definite system of size n is solved in n steps");
            } else {
                check(true, "failure is reported");
            }
        }
    }
}

// ---------------------------------------------------------------- power iteration
/// params: variant (1..4), n, max_iters, mode (0 all symbolic, 1 fixed start, 2 fixed matrix, 3 and all but one entry of the start, 4 only the
/// tolerance unknown)
pub fn h_power() {
    let (var, n, k, mode) = (param(0), param(1), param(2), param(3));
    generic(true);
    let mut a = sym_mat(n);
    let mut x0 = vec_real(n);
    if mode == 1 {
        for i in 0..n {
            x0[i] = 2.0 - i as f64;
        }
    }
    if mode >= 3 {
        // one unknown entry of the start, resp. none
        for i in (mode == 3) as usize..n {
            x0[i] = 2.0 * i as f64 - 1.0;
        }
    }
    if mode >= 2 {
        for i in 0..n {
            for j in 0..n {
                a.set(i, j, if i == j { 2.0 + i as f64 } else { -1.0 });
            }
        }
    }
    let mut nz = 0.0;
    for i in 0..n {
        nz += x0[i] * x0[i];
    }
    assume_gt(nz, 0.0);
    let tol = nonneg();
    let o = pi::Options { max_iters: k, tolerance: tol };
    let mut x = x0.clone();
    let (ev, it) = match var {
        1 => pi::power_iteration(&a, &mut x, &o),
        2 => pi::power_iteration2(&a, &mut x, &o),
        3 => pi::power_iteration3(&a, &mut x, &o),
        _ => pi::power_iteration4(&a, &mut x, &o),
    };
    check(it <= k, "iteration limit");
    check(x.len() == n, "the vector keeps its size");
    let xx = x.dot(&x);
    if var != 3 || it < k {
        check_eq(xx, 1.0, "the vector returned has unit length");
    }
    let ax = a.dot_mv(&x);
    check_eq(ev * xx, x.dot(&ax), "the value returned is the Rayleigh quotient of the vector returned");
    // the vector is a power of the matrix applied to the start, up to a factor
    let steps = if it < k { it + 1 } else { k };
    let mut seq = vec![x0.clone()];
    for _ in 0..steps {
        let y = a.dot_mv(seq.last().unwrap());
        seq.push(y);
    }
    let y = &seq[steps];
    for i in 0..n {
        for j in 0..i {
            check_eq(y[i] * x[j], y[j] * x[i], "the vector is a power of the matrix applied to the start");
        }
    }
    // it stops exactly when successive iterates are close enough
    let mut close = vec![];
    if var == 2 || var == 3 {
        for t in 0..steps {
            let r = |z: &Arr| z.dot(&a.dot_mv(z)) / z.dot(z);
            let d = r(&seq[t]) - r(&seq[t + 1]);
            close.push(d <= tol && -d <= tol);
        }
    } else {
        let l1 = |z: &Arr| {
            let mut s = 0.0;
            for i in 0..n {
                s += if z[i] < 0.0 { -z[i] } else { z[i] };
            }
            s
        };
        let norm = |z: &Arr| {
            let d = if var == 1 { z.dot(z).sqrt() } else { l1(z) };
            Arr::from_fn(n, |i| z[i] / d)
        };
        let mut u = norm(&x0);
        for _ in 0..steps {
            let w = norm(&a.dot_mv(&u));
            close.push(l1(&(&w - &u)) <= tol || l1(&(&w + &u)) <= tol);
            u = w;
        }
    }
    for t in 0..steps {
        check(close[t] == (t == it), "stops at the first iterate close enough to its predecessor");
    }
}
