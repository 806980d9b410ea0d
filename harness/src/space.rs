//! Search spaces: one update, histories, comparison of the two representations.
use crate::calc::{self, Triple};
use crate::sym::*;
use ellalgo_rs::ell_calc::EllCalc;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;

/// kinds: 0 single deep, 1 single central, 2 single q, 3 parallel deep, 4 parallel central, 5 parallel q
pub fn apply<S>(s: &mut S, kind: usize, g: &Arr, b0: f64, b1: f64) -> CutStatus
where
    S: SearchSpace<ArrayType = Arr>,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    match kind {
        0 => s.update_bias_cut(&(g.clone(), SingleCut(b0))),
        1 => s.update_central_cut(&(g.clone(), SingleCut(b0))),
        2 => s.update_q(&(g.clone(), SingleCut(b0))),
        3 => s.update_bias_cut(&(g.clone(), ParallelCut(b0, Some(b1)))),
        4 => s.update_central_cut(&(g.clone(), ParallelCut(b0, Some(b1)))),
        _ => s.update_q(&(g.clone(), ParallelCut(b0, Some(b1)))),
    }
}

/// value of the quadratic form h'Ph of the current ellipsoid {x : (x-xc)'P^-1(x-xc) <= 1}, read through
/// the public interface: a cut that is refused whatever the ellipsoid looks like still reports it
pub fn form<S>(s: &S, h: &Arr) -> f64
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let mut c = s.clone();
    let st = c.update_bias_cut(&(h.clone(), ParallelCut(1.0, Some(0.0))));
    check(st == CutStatus::NoSoln, "inverted interval is refused");
    c.tsq()
}

/// the whole shape matrix P, by polarisation
pub fn shape<S>(s: &S, n: usize) -> Arr
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let mut p = Arr::zeros(n, n);
    for i in 0..n {
        let mut h = Arr::new(n);
        h[i] = 1.0;
        p.set(i, i, form(s, &h));
    }
    for i in 0..n {
        for j in 0..i {
            let mut h = Arr::new(n);
            h[i] = 1.0;
            h[j] = 1.0;
            let v = (form(s, &h) - p.at(i, i) - p.at(j, j)) / 2.0;
            p.set(i, j, v);
            p.set(j, i, v);
        }
    }
    p
}

fn mv(p: &Arr, g: &Arr, n: usize) -> Vec<f64> {
    (0..n).map(|i| (0..n).map(|j| p.at(i, j) * g[j]).fold(0.0, |a, b| a + b)).collect()
}
fn dotv(a: &[f64], g: &Arr) -> f64 {
    a.iter().enumerate().map(|(i, v)| v * g[i]).fold(0.0, |a, b| a + b)
}

/// Express one update (old -> new ellipsoid) as (rho, sigma, delta): the centre moves by rho along
/// Pg/tsq against the gradient and P' = delta (P - sigma Pg(Pg)'/tsq).
pub fn derive(n: usize, g: &Arr, x0: &Arr, p0: &Arr, x1: &Arr, p1: &Arr) -> Triple {
    let pg = mv(p0, g, n);
    let tsq = dotv(&pg, g);
    let mut rho = 0.0;
    for i in 0..n {
        rho += g[i] * (x0[i] - x1[i]);
    }
    for i in 0..n {
        check_eq(x1[i], x0[i] - rho * pg[i] / tsq, "centre moves along the image of the gradient");
    }
    // a direction conjugate to g, if there is one among the first two coordinates
    generic(true);
    let mut h = Arr::new(n);
    h[0] = -pg[1];
    h[1] = pg[0];
    let delta = dotv(&mv(p1, &h, n), &h) / dotv(&mv(p0, &h, n), &h);
    let sigma = 1.0 - dotv(&mv(p1, g, n), g) / (delta * tsq);
    for i in 0..n {
        for j in 0..=i {
            check_eq(
                p1.at(i, j),
                delta * (p0.at(i, j) - sigma * pg[i] * pg[j] / tsq),
                "shape changes by a scaled rank-one term",
            );
        }
    }
    generic(false);
    (rho, sigma, delta)
}

/// arbitrary starting ellipsoid whose half-width along g is tau
/// flavour 0: Ell, 1: Ell without the deferral trick
pub fn any_ell(n: usize, flavour: usize, g: &Arr, tau: f64) -> Ell {
    let m = sym_mat(n);
    let xc = vec_real(n);
    let om = g.dot(&m.dot_mv(g));
    assume_gt(om, 0.0);
    let mut e = Ell::new_with_matrix(tau * tau / om, m, xc);
    e.no_defer_trick = flavour == 1;
    e
}

/// a positive definite matrix V D V' with V unit upper triangular: every positive definite matrix
pub fn udu_mat(n: usize) -> Arr {
    let mut v = Arr::zeros(n, n);
    let mut d = vec![];
    for i in 0..n {
        v.set(i, i, 1.0);
        for j in i + 1..n {
            v.set(i, j, real());
        }
        d.push(pos());
    }
    let mut m = Arr::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let mut s = 0.0;
            for k in i..n {
                s += v.at(i, k) * d[k] * v.at(j, k);
            }
            m.set(i, j, s);
            m.set(j, i, s);
        }
    }
    m
}

/// arbitrary starting ellipsoid, factored representation, and an arbitrary gradient, parametrised so that
/// inv(L) g and the factors are plain symbols: shape = kappa inv(L') D inv(L), g = L w
pub fn any_stable(n: usize, tau: f64) -> (EllStable, Arr) {
    let (k, m, xc, g) = any_factored(n, tau);
    (EllStable::new_with_matrix(k, m, xc), g)
}
pub fn any_factored(n: usize, tau: f64) -> (f64, Arr, Arr, Arr) {
    let mut l = Arr::zeros(n, n);
    let mut d = vec![];
    let mut w = vec![];
    for i in 0..n {
        l.set(i, i, 1.0);
        for j in 0..i {
            l.set(i, j, real());
        }
        d.push(pos());
        w.push(real());
    }
    factored(n, tau, l, d, w, n >= 3)
}
fn factored(n: usize, tau: f64, l: Arr, d: Vec<f64>, w: Vec<f64>, dense: bool) -> (f64, Arr, Arr, Arr) {
    // inverse of L
    let mut r = Arr::zeros(n, n);
    for j in 0..n {
        r.set(j, j, 1.0);
        for i in j + 1..n {
            let mut s = 0.0;
            for k in j..i {
                s += l.at(i, k) * r.at(k, j);
            }
            r.set(i, j, -s);
            if dense {
                // (only to keep the number of paths down: no factor entry happens to vanish)
                assume_ne(s, 0.0);
            }
        }
    }
    let mut m = Arr::zeros(n, n);
    let mut g = Arr::new(n);
    let mut om = 0.0;
    for i in 0..n {
        for j in 0..n {
            let mut s = 0.0;
            for k in 0..n {
                s += r.at(k, i) * d[k] * r.at(k, j);
            }
            m.set(i, j, s);
        }
        let mut s = 0.0;
        for k in 0..=i {
            s += l.at(i, k) * w[k];
        }
        g[i] = s;
        om += w[i] * d[i] * w[i];
    }
    let xc = vec_real(n);
    assume_gt(om, 0.0);
    (tau * tau / om, m, xc, g)
}

/// diagonal starting ellipsoid scaled so that its half-width along g is tau
pub fn diag_stable(n: usize, g: &Arr, tau: f64) -> EllStable {
    let mut d = Arr::new(n);
    for i in 0..n {
        d[i] = pos();
    }
    let xc = vec_real(n);
    let mut om = 0.0;
    for i in 0..n {
        om += g[i] * d[i] * g[i];
    }
    assume_gt(om, 0.0);
    EllStable::new_with_matrix(tau * tau / om, Arr::from_diag(&d), xc)
}

pub fn apply_any<S>(s: &mut S, kind: usize, g: &Arr, b0: f64, b1: f64) -> CutStatus
where
    S: SearchSpace<ArrayType = Arr>,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    match kind {
        9 => s.update_bias_cut(&(g.clone(), ParallelCut(b0, None))),
        10 => s.update_central_cut(&(g.clone(), ParallelCut(b0, None))),
        11 => s.update_q(&(g.clone(), ParallelCut(b0, None))),
        _ => apply(s, kind, g, b0, b1),
    }
}

fn cut_checks<S>(mut s: S, what: usize, kind: usize, n: usize, g: &Arr, tau: f64)
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let nf = n as f64;
    let (b0, b1, lo, hi) = calc::admissible(kind, nf, tau);
    let (x0, p0) = (s.xc(), shape(&s, n));
    let st = apply_any(&mut s, kind, g, b0, b1);
    check_eq(s.tsq(), tau * tau, "reported measure is the squared half-width along the gradient");
    check(st != CutStatus::NoSoln && st != CutStatus::Unknown, "feasible cut is not refused");
    let (x1, p1) = (s.xc(), shape(&s, n));
    if st == CutStatus::Success {
        let mut t = derive(n, g, &x0, &p0, &x1, &p1);
        if what < 2 {
            // same numbers in a simpler form, when they are the same numbers
            let (_, t2) = calc::run(&EllCalc::new(n), kind, b0, b1, tau * tau);
            if t.0 == t2.0 && t.1 == t2.1 && t.2 == t2.2 {
                t = t2;
            }
        }
        match what {
            0 => calc::contains(t, tau, lo, hi),
            1 => calc::volume(t, nf, n, tau, lo, calc::top(kind, b0)),
            _ => {
                let c = EllCalc::new(n);
                let (st2, t2) = calc::run(&c, kind, b0, b1, tau * tau);
                check(st == st2, "status of the cut calculator");
                check_eq(t.0, t2.0, "centre step as computed");
                check_eq(t.1, t2.1, "rank-one coefficient as computed");
                check_eq(t.2, t2.2, "scale factor as computed");
            }
        }
        for i in 0..n {
            observe(x1[i], "centre");
        }
    } else {
        for i in 0..n {
            check_eq(x1[i], x0[i], "no effect: centre kept");
            for j in 0..=i {
                check_eq(p1.at(i, j), p0.at(i, j), "no effect: shape kept");
            }
        }
    }
}

/// one cut applied to an arbitrary ellipsoid through the search-space interface
/// params: flavour (0 Ell, 1 Ell/no deferral, 2 EllStable from a diagonal start), n, kind,
///         what (0 containment, 1 volume, 2 exact parameters)
pub fn h_space_cut() {
    let (fl, n, kind, what) = (param(0), param(1), param(2), param(3));
    let tau = pos();
    let g = vec_real(n);
    if fl < 2 {
        let e = any_ell(n, fl, &g, tau);
        cut_checks(e, what, kind, n, &g, tau);
    } else if fl == 2 {
        let e = diag_stable(n, &g, tau);
        cut_checks(e, what, kind, n, &g, tau);
    } else {
        let (e, g) = any_stable(n, tau);
        cut_checks(e, what, kind, n, &g, tau);
    }
}

fn same_space<A, B>(a: &A, b: &B, n: usize, why: &str)
where
    A: SearchSpace<ArrayType = Arr> + Clone,
    B: SearchSpace<ArrayType = Arr> + Clone,
    ParallelCut: UpdateByCutChoice<A, ArrayType = Arr> + UpdateByCutChoice<B, ArrayType = Arr>,
{
    let (xa, xb) = (a.xc(), b.xc());
    let (pa, pb) = (shape(a, n), shape(b, n));
    for i in 0..n {
        check_eq(xa[i], xb[i], why);
        for j in 0..=i {
            check_eq(pa.at(i, j), pb.at(i, j), why);
        }
    }
}

fn status_checks<S>(mut s: S, kind: usize, n: usize, g: &Arr, tau: f64)
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let nf = n as f64;
    let a0 = real();
    let a1 = real();
    let expect = calc::expected_status(kind, nf, 1.0, a0, a1);
    let old = s.clone();
    let st = apply_any(&mut s, kind, g, a0 * tau, a1 * tau);
    check(st == expect, "status is exact");
    check_eq(s.tsq(), tau * tau, "reported measure is the squared half-width along the gradient");
    if st != CutStatus::Success {
        same_space(&s, &old, n, "refused cut changes nothing");
        // nor does it show in what a later cut does
        let mut t = old;
        let h = vec_real(n);
        generic(true);
        let om = form(&t, &h);
        assume_gt(om, 0.0);
        let (sa, sb) = (apply(&mut s, 1, &h, 0.0, 0.0), apply(&mut t, 1, &h, 0.0, 0.0));
        check(sa == sb, "refused cut does not show later: status");
        check_eq(s.tsq(), t.tsq(), "refused cut does not show later: measure");
        same_space(&s, &t, n, "refused cut does not show later");
    }
}

/// params: flavour, n, kind
pub fn h_space_status() {
    let (fl, n, kind) = (param(0), param(1), param(2));
    let tau = pos();
    let g = vec_real(n);
    if fl < 2 {
        let e = any_ell(n, fl, &g, tau);
        status_checks(e, kind, n, &g, tau);
    } else if fl == 2 {
        let e = diag_stable(n, &g, tau);
        status_checks(e, kind, n, &g, tau);
    } else {
        let (e, g) = any_stable(n, tau);
        status_checks(e, kind, n, &g, tau);
    }
}

/// same start, same cuts: both representations report the same status, the
/// same tsq and the same centre after every cut.
/// params: n, generic, number of cuts, kind of each cut
pub fn h_stable_equiv() {
    let n = param(0);
    generic(param(1) == 1);
    let steps = param(2);
    let mut d = Arr::new(n);
    for i in 0..n {
        d[i] = pos();
    }
    let xc = vec_real(n);
    let mut a = Ell::new(d.clone(), xc.clone());
    let mut b = EllStable::new(d, xc);
    for s in 0..steps {
        let kind = param(3 + s);
        let g = vec_real(n);
        let om = a.kappa * g.dot(&a.mq.dot_mv(&g));
        assume_gt(om, 0.0);
        // depths are given relative to the half-width of the ellipsoid along the cut
        let tau = om.sqrt();
        let (a0, a1) = (real(), real());
        assume_lt(a0, 1.0);
        assume_lt(a1, 1.0);
        assume_gt(a0, -1.0);
        assume_gt(a1, -1.0);
        if kind == 3 || kind == 5 {
            assume_lt(a0, a1);
        }
        if kind == 4 {
            assume_gt(a1, 0.0);
        }
        if kind == 0 || kind == 3 {
            assume_ge(a0, 0.0);
        }
        let (b0, b1) = (a0 * tau, a1 * tau);
        let sa = apply(&mut a, kind, &g, b0, b1);
        let sb = apply(&mut b, kind, &g, b0, b1);
        check(sa == sb, "same status");
        check_eq(a.tsq(), b.tsq(), "same tsq");
        let (xa, xb) = (a.xc(), b.xc());
        for i in 0..n {
            check_eq(xa[i], xb[i], "same centre");
        }
    }
    same_space(&a, &b, n, "same ellipsoid");
}

/// one cut from the same arbitrary ellipsoid: by induction, any history
/// params: n, kind
pub fn h_stable_step() {
    let (n, kind) = (param(0), param(1));
    let tau = pos();
    let (k, m, xc, g) = any_factored(n, tau);
    let mut a = Ell::new_with_matrix(k, m.clone(), xc.clone());
    let mut b = EllStable::new_with_matrix(k, m, xc);
    same_space(&a, &b, n, "same ellipsoid to begin with");
    let (b0, b1, _, _) = calc::admissible(kind, n as f64, tau);
    let sa = apply_any(&mut a, kind, &g, b0, b1);
    let sb = apply_any(&mut b, kind, &g, b0, b1);
    check(sa == sb, "same status");
    check_eq(a.tsq(), b.tsq(), "same tsq");
    same_space(&a, &b, n, "same ellipsoid");
}

/// the same for large n: the starting shape is fixed (dense factors), the centre and a few components of the
/// gradient are arbitrary
/// params: n, kind, an integer the optimiser does not know, first arbitrary component, number of them,
///         0: compare the representations, 1..3: the update (Ell with and without deferral, EllStable), 4..6: the status
pub fn h_stable_big() {
    let (n, kind, q, first, cnt, mode) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let tau = pos();
    let one = q as f64 / q as f64;
    let mut l = Arr::zeros(n, n);
    let mut d = vec![];
    let mut w = vec![];
    for i in 0..n {
        l.set(i, i, one);
        for j in 0..i {
            // small, dense, and never zero
            let v = ((i * 7 + j * 3 + q) % 4) as f64 - 1.5;
            l.set(i, j, v / 2.0 * one);
        }
        d.push((1 + (i * 5 + q) % 3) as f64 * one);
        w.push(if i >= first && i < first + cnt { real() } else { ((i * 3 + q) % 5) as f64 * one - 2.0 });
    }
    let (k, m, xc, g) = factored(n, tau, l, d, w, false);
    let mut a = Ell::new_with_matrix(k, m.clone(), xc.clone());
    let mut b = EllStable::new_with_matrix(k, m, xc);
    a.no_defer_trick = mode == 2 || mode == 5;
    match mode {
        0 => {}
        1 | 2 => return cut_checks(a, 2, kind, n, &g, tau),
        3 => return cut_checks(b, 2, kind, n, &g, tau),
        4 | 5 => return status_checks(a, kind, n, &g, tau),
        _ => return status_checks(b, kind, n, &g, tau),
    }
    same_space(&a, &b, n, "same ellipsoid to begin with");
    let (b0, b1, _, _) = calc::admissible(kind, n as f64, tau);
    let sa = apply_any(&mut a, kind, &g, b0, b1);
    let sb = apply_any(&mut b, kind, &g, b0, b1);
    check(sa == sb, "same status");
    check_eq(a.tsq(), b.tsq(), "same tsq");
    same_space(&a, &b, n, "same ellipsoid");
}

/// the deferral switch never changes the ellipsoid
/// params: n, number of cuts, kinds
pub fn h_defer() {
    let n = param(0);
    let steps = param(1);
    let tau = pos();
    let g0 = vec_real(n);
    let mut a = any_ell(n, 0, &g0, tau);
    let mut b = a.clone();
    b.no_defer_trick = true;
    generic(true);
    for s in 0..steps {
        let kind = param(2 + s);
        let (g, t) = if s == 0 {
            (g0.clone(), tau)
        } else {
            let g = vec_real(n);
            let om = form(&a, &g);
            assume_gt(om, 0.0);
            (g, om.sqrt())
        };
        let (b0, b1, _, _) = calc::admissible(kind, n as f64, t);
        let (sa, sb) = (apply_any(&mut a, kind, &g, b0, b1), apply_any(&mut b, kind, &g, b0, b1));
        check(sa == sb, "same status");
        check_eq(a.tsq(), b.tsq(), "same measure");
        same_space(&a, &b, n, "same ellipsoid");
        if sb == CutStatus::Success {
            check_eq(b.kappa, 1.0, "scale is folded into the matrix");
        }
    }
}

/// every constructor describes the ellipsoid it says; moving the centre changes nothing else
/// params: n
pub fn h_ctor() {
    let n = param(0);
    let xc = vec_real(n);
    let d = vec_real(n);
    let k = real();
    let m = sym_mat(n);
    let same = |p: &Arr, q: &dyn Fn(usize, usize) -> f64, x: &Arr, l: &str| {
        for i in 0..n {
            check_eq(x[i], xc[i], l);
            for j in 0..=i {
                check_eq(p.at(i, j), q(i, j), l);
            }
        }
    };
    let diag = |i: usize, j: usize| if i == j { d[i] } else { 0.0 };
    let scal = |i: usize, j: usize| if i == j { k } else { 0.0 };
    let a = Ell::new(d.clone(), xc.clone());
    same(&shape(&a, n), &diag, &a.xc(), "diagonal constructor");
    let a = Ell::new_with_scalar(k, xc.clone());
    same(&shape(&a, n), &scal, &a.xc(), "scalar constructor");
    let a = Ell::new_with_matrix(k, m.clone(), xc.clone());
    same(&shape(&a, n), &|i, j| k * m.at(i, j), &a.xc(), "matrix constructor");
    let a = Ell::from_covariance(m.clone(), xc.clone());
    same(&shape(&a, n), &|i, j| m.at(i, j), &a.xc(), "covariance constructor");
    let b = EllStable::new(d.clone(), xc.clone());
    same(&shape(&b, n), &diag, &b.xc(), "stable diagonal constructor");
    let b = EllStable::new_with_scalar(k, xc.clone());
    same(&shape(&b, n), &scal, &b.xc(), "stable scalar constructor");
    let b = EllStable::new_with_matrix(k, Arr::from_diag(&d), xc.clone());
    same(&shape(&b, n), &|i, j| k * diag(i, j), &b.xc(), "stable matrix constructor");
    let w = udu_mat(n);
    let b = EllStable::new_with_matrix(k, w.clone(), xc.clone());
    same(&shape(&b, n), &|i, j| k * w.at(i, j), &b.xc(), "stable matrix constructor, any shape");
    // moving the centre
    let y = vec_real(n);
    let (mut a2, mut b2) = (a.clone(), b.clone());
    a2.set_xc(y.clone());
    b2.set_xc(y.clone());
    let (pa, pb, qa, qb) = (shape(&a, n), shape(&b, n), shape(&a2, n), shape(&b2, n));
    let (xa, xb) = (a2.xc(), b2.xc());
    for i in 0..n {
        check_eq(xa[i], y[i], "centre is set");
        check_eq(xb[i], y[i], "centre is set");
        for j in 0..=i {
            check_eq(pa.at(i, j), qa.at(i, j), "moving the centre keeps the shape");
            check_eq(pb.at(i, j), qb.at(i, j), "moving the centre keeps the shape");
        }
    }
}

/// the update commutes with translations of space and with rescaling of the constraint
/// params: flavour, n, kind
pub fn h_covariant() {
    let (fl, n, kind) = (param(0), param(1), param(2));
    let tau = pos();
    let g = vec_real(n);
    let k = pos();
    if fl < 2 {
        let e = any_ell(n, fl, &g, tau);
        covariant(e, kind, n, &g, tau, k);
    } else if fl == 2 {
        let e = diag_stable(n, &g, tau);
        covariant(e, kind, n, &g, tau, k);
    } else {
        let (e, g) = any_stable(n, tau);
        covariant(e, kind, n, &g, tau, k);
    }
}
fn covariant<S>(mut s: S, kind: usize, n: usize, g: &Arr, tau: f64, k: f64)
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    generic(true);
    let sh = vec_real(n);
    let mut t = s.clone();
    let mut y = t.xc();
    for i in 0..n {
        y[i] += sh[i];
    }
    t.set_xc(y);
    let (b0, b1, _, _) = calc::admissible(kind, n as f64, tau);
    let mut kg = g.clone();
    for i in 0..n {
        kg[i] *= k;
    }
    let (sa, sb) = (apply_any(&mut s, kind, g, b0, b1), apply_any(&mut t, kind, &kg, k * b0, k * b1));
    check(sa == sb, "same status after translation and scaling");
    check_eq(t.tsq(), k * k * s.tsq(), "measure scales with the gradient");
    let (xs, xt) = (s.xc(), t.xc());
    let (ps, pt) = (shape(&s, n), shape(&t, n));
    for i in 0..n {
        check_eq(xt[i], xs[i] + sh[i], "translated centre");
        for j in 0..=i {
            check_eq(pt.at(i, j), ps.at(i, j), "shape does not depend on translation or scaling");
        }
    }
}

/// a long history: many central cuts in fixed directions, then one arbitrary cut. The directions are chosen so
/// that every half-width is rational: each is cut along twice, and the next pair is a rotation of the last one.
/// params: flavour (0, 1 Ell, 3 EllStable), n, number of double cuts, kind of the last cut, 5 (an integer the
///         optimiser does not know, so that quotients stay exact)
pub fn h_history() {
    let (fl, n, rounds, kind) = (param(0), param(1), param(2), param(3));
    let one = param(4) as f64 / param(4) as f64;
    let xc = vec_real(n);
    let mut d = Arr::new(n);
    for i in 0..n {
        d[i] = one;
    }
    if fl == 3 {
        history(EllStable::new(d, xc), n, rounds, kind);
    } else {
        let mut e = Ell::new(d, xc);
        e.no_defer_trick = fl == 1;
        history(e, n, rounds, kind);
    }
}
fn history<S>(mut s: S, n: usize, rounds: usize, kind: usize)
where
    S: SearchSpace<ArrayType = Arr> + Clone,
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    let (five, nf) = (param(4) as f64, (param(1) as f64) * param(4) as f64 / param(4) as f64);
    // directions, conjugate and of unit half-width
    let mut u: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    for r in 0..rounds {
        let (a, b) = (r % n, (r + 1) % n);
        for i in 0..n {
            let (p, q) = (u[a][i], u[b][i]);
            u[a][i] = (3.0 * p + 4.0 * q) / five;
            u[b][i] = (4.0 * p - 3.0 * q) / five;
        }
        let mut g = Arr::new(n);
        for i in 0..n {
            g[i] = u[a][i];
        }
        let mut w = 1.0;
        for _ in 0..2 {
            let st = s.update_central_cut(&(g.clone(), SingleCut(0.0)));
            check(st == CutStatus::Success, "history: central cut succeeds");
            check_eq(s.tsq(), w * w, "history: measure");
            w = w * nf / (nf + 1.0);
        }
        let k = nf * nf / (nf * nf - 1.0);
        for i in 0..n {
            u[a][i] = u[a][i] / w;
            for j in 0..n {
                if j != a {
                    u[j][i] = u[j][i] / k;
                }
            }
        }
    }
    let h = vec_real(n);
    generic(true);
    let om = form(&s, &h);
    assume_gt(om, 0.0);
    let tau = om.sqrt();
    cut_checks(s, 2, kind, n, &h, tau);
}
