//! Cut parameters (rho, sigma, delta) computed by the ellipsoid calculator,
//! for every dimension n >= 2 at once (n is a symbol).
use crate::sym::*;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell_calc::*;

pub type Triple = (f64, f64, f64);

/// Any point of the old ellipsoid whose cut coordinate u = g'(x - xc) lies in
/// [lo, hi] lies in the new ellipsoid.  With s = (x-xc)'P^-1(x-xc) <= 1 the new
/// quadratic form is  ((u+rho)^2/(1-sigma) - u^2)/tsq + s  over delta, which is convex in
/// u because 0 <= sigma < 1, so it is enough to look at the two ends.
pub fn contains(t: Triple, tau: f64, lo: f64, hi: f64) {
    let (rho, sigma, delta) = t;
    check_le(0.0, sigma, "0 <= sigma");
    check_lt(sigma, 1.0, "sigma < 1");
    check_lt(0.0, delta, "0 < delta");
    let tsq = tau * tau;
    for u in [lo, hi] {
        check_le(
            (u + rho) * (u + rho) / (1.0 - sigma) + tsq - u * u,
            delta * tsq,
            "kept part stays inside",
        );
    }
}

/// the same for an arbitrary u in [lo, hi] (no convexity argument)
pub fn contains_any(t: Triple, tau: f64, lo: f64, hi: f64) {
    let (rho, sigma, delta) = t;
    let tsq = tau * tau;
    let u = real();
    assume_ge(u, lo);
    assume_le(u, hi);
    check_le(
        (u + rho) * (u + rho) / (1.0 - sigma) + tsq - u * u,
        delta * tsq,
        "kept part stays inside (any point)",
    );
}

fn dim() -> (usize, f64) {
    let n = any_usize();
    assume_ge(n as f64, 2.0);
    (n, n as f64)
}

pub fn run(c: &EllCalc, kind: usize, b0: f64, b1: f64, tsq: f64) -> (CutStatus, Triple) {
    match kind {
        0 => c.calc_bias_cut(b0, tsq),
        1 => c.calc_central_cut(tsq),
        2 => c.calc_bias_cut_q(b0, tsq),
        3 => c.calc_parallel_bias_cut(b0, b1, tsq),
        4 => c.calc_parallel_central_cut(b1, tsq),
        5 => c.calc_parallel_q(b0, b1, tsq),
        6 => c.calc_single_or_parallel_bias_cut(&ParallelCut(b0, Some(b1)), tsq),
        7 => c.calc_single_or_parallel_central_cut(&ParallelCut(b0, Some(b1)), tsq),
        8 => c.calc_single_or_parallel_q(&ParallelCut(b0, Some(b1)), tsq),
        9 => c.calc_single_or_parallel_bias_cut(&ParallelCut(b0, None), tsq),
        10 => c.calc_single_or_parallel_central_cut(&ParallelCut(b0, None), tsq),
        _ => c.calc_single_or_parallel_q(&ParallelCut(b0, None), tsq),
    }
}

/// inputs admissible for a kind: returns (b0, b1, lo, hi) where [lo, hi] is the
/// kept interval of the cut coordinate
pub fn admissible(kind: usize, nf: f64, tau: f64) -> (f64, f64, f64, f64) {
    // depths relative to the half-width tau of the ellipsoid along the cut
    let a0 = real();
    let a1 = real();
    let (b0, b1) = (a0 * tau, a1 * tau);
    match kind {
        0 | 9 => {
            // deep (or mildly shallow) cut that meets the ellipsoid
            assume_lt(a0, 1.0);
            assume_ge(nf * a0, -1.0);
            (b0, b1, -tau, -b0)
        }
        1 | 10 => (b0, b1, -tau, 0.0),
        2 | 11 => {
            assume_lt(a0, 1.0);
            assume_gt(a0, -1.0);
            (b0, b1, -tau, -b0)
        }
        3 | 6 => {
            // the strip meets the ellipsoid and the update shrinks it (eta >= 0)
            assume_lt(a0, a1);
            assume_lt(a0, 1.0);
            assume_gt(a1, -1.0);
            if a1 < 1.0 {
                assume_ge(1.0 + nf * a0 * a1, 0.0);
                if a0 < -1.0 {
                    (b0, b1, -b1, tau)
                } else {
                    (b0, b1, -b1, -b0)
                }
            } else {
                assume_ge(nf * a0, -1.0);
                (b0, b1, -tau, -b0)
            }
        }
        4 | 7 => {
            assume_gt(a1, 0.0);
            if a1 < 1.0 {
                (b0, b1, -b1, 0.0)
            } else {
                (b0, b1, -tau, 0.0)
            }
        }
        _ => {
            assume_lt(a0, a1);
            assume_lt(a0, 1.0);
            assume_gt(a1, -1.0);
            let lo = if a1 < 1.0 { -b1 } else { -tau };
            let hi = if a0 < -1.0 { tau } else { -b0 };
            (b0, b1, lo, hi)
        }
    }
}

/// params: kind, 0 = interval ends / 1 = arbitrary point
pub fn h_calc_contain() {
    let kind = param(0);
    let (n, nf) = dim();
    let c = EllCalc::new(n);
    let tau = pos();
    let (b0, b1, lo, hi) = admissible(kind, nf, tau);
    let (st, t) = run(&c, kind, b0, b1, tau * tau);
    check(st != CutStatus::NoSoln && st != CutStatus::Unknown, "feasible cut is not refused");
    if st == CutStatus::Success {
        if param(1) == 0 {
            contains(t, tau, lo, hi);
        } else {
            contains_any(t, tau, lo, hi);
        }
        observe(t.0, "rho");
        observe(t.1, "sigma");
        observe(t.2, "delta");
    }
}

/// cuts that leave nothing but a flat piece or a single point: that piece lies in the new (flat) ellipsoid
/// params: kind, 0 = equal bounds, 1 = the lower plane is tangent, 2 = the upper plane is tangent
pub fn h_calc_flat() {
    let (kind, which) = (param(0), param(1));
    let (n, _) = dim();
    let c = EllCalc::new(n);
    let tau = pos();
    let tsq = tau * tau;
    let (b0, b1, u) = match which {
        0 => {
            // (the central kinds take no first bound: theirs is zero)
            let a = if kind == 4 || kind == 7 { 0.0 } else { real() };
            assume_lt(a, 1.0);
            assume_gt(a, -1.0);
            (a * tau, a * tau, -a * tau)
        }
        1 => {
            let a = pos();
            (-tau - a * tau, -tau, tau)
        }
        _ => {
            let a = nonneg();
            (tau, tau + a * tau, -tau)
        }
    };
    let (st, (rho, sigma, delta)) = run(&c, kind, b0, b1, tsq);
    check(st == CutStatus::Success, "a cut that leaves a flat piece is accepted");
    check_le(0.0, sigma, "0 <= sigma");
    check_le(sigma, 1.0, "sigma <= 1");
    check_le(0.0, delta, "0 <= delta");
    if sigma < 1.0 {
        check_le((u + rho) * (u + rho) / (1.0 - sigma) + tsq - u * u, delta * tsq, "flat piece stays inside");
    } else {
        check_eq(u + rho, 0.0, "flat piece: centre on the plane");
        check_le(tsq - u * u, delta * tsq, "flat piece stays inside");
    }
}

fn powi(x: f64, k: usize) -> f64 {
    let mut r = 1.0;
    for _ in 0..k {
        r *= x;
    }
    r
}

/// Squared volume ratio of an update: delta^n (1 - sigma) <= 1.
///
/// Ellipsoids through the two boundary circles of the kept slab form the curve
/// delta(t) = 1 + t (t s^2/4 - a0 a1)/(1-t), s = a0 + a1, starting at the old
/// ellipsoid (t = 0); along it d/dt log V^2 has the sign of
/// -Q(t), Q(t) = (n+1) s^2/4 t^2 - (1 + a0 a1 + n s^2/2) t + (1 + n a0 a1).
/// Q is convex, so Q(sigma) >= 0 and Q'(sigma) <= 0 give Q >= 0 on [0, sigma] and V <= 1.
/// When the update is not of that form the ratio is computed directly.
pub fn volume(t: Triple, nf: f64, n: usize, tau: f64, lo: f64, hi: f64) {
    let (_, sigma, delta) = t;
    let (a0, a1) = (-hi / tau, -lo / tau);
    let s = a0 + a1;
    let p = a0 * a1;
    let on_curve = (delta - 1.0) * (1.0 - sigma) == sigma * (sigma * s * s / 4.0 - p);
    let q = (nf + 1.0) * s * s / 4.0 * sigma * sigma - (1.0 + p + nf * s * s / 2.0) * sigma + (1.0 + nf * p);
    let dq = (nf + 1.0) * s * s / 2.0 * sigma - (1.0 + p + nf * s * s / 2.0);
    if on_curve && q >= 0.0 && dq <= 0.0 && sigma >= 0.0 && sigma < 1.0 {
        check(true, "volume does not grow");
    } else if n > 0 {
        check_le(powi(delta, n) * (1.0 - sigma), 1.0, "volume does not grow");
    }
}

/// upper end of the strip a cut asks for, not clipped to the ellipsoid
pub fn top(kind: usize, b0: f64) -> f64 {
    match kind {
        1 | 10 | 4 | 7 => 0.0,
        _ => -b0,
    }
}

/// params: kind, n (0 = any n)
pub fn h_calc_volume() {
    let kind = param(0);
    let n = param(1);
    let (c, nf) = if n == 0 {
        let (k, nf) = dim();
        (EllCalc::new(k), nf)
    } else {
        (EllCalc::new(n), n as f64)
    };
    let tau = pos();
    let (b0, b1, lo, hi) = admissible(kind, nf, tau);
    let (st, t) = run(&c, kind, b0, b1, tau * tau);
    if st == CutStatus::Success {
        volume(t, nf, n, tau, lo, top(kind, b0));
        if n == 0 {
            return;
        }
        if kind == 1 || kind == 10 {
            let v = powi(t.2, n) * (1.0 - t.1);
            check_lt(v, 1.0, "central cut strictly shrinks");
            // the documented factor: n^(2n) / ((n+1)^(n+1) (n-1)^(n-1))
            check_eq(
                v * powi(nf + 1.0, n + 1) * powi(nf - 1.0, n - 1),
                powi(nf, 2 * n),
                "central cut volume factor",
            );
        }
        if (kind == 0 || kind == 2 || kind == 9 || kind == 11) && n <= 6 {
            // a deeper single cut never leaves a larger ellipsoid
            let e = nonneg();
            assume_lt(b0 + e * tau, tau);
            let v = powi(t.2, n) * (1.0 - t.1);
            let (st2, t2) = run(&c, kind, b0 + e * tau, b1, tau * tau);
            check(st2 == CutStatus::Success, "deeper cut accepted");
            check_le(powi(t2.2, n) * (1.0 - t2.1), v, "deeper cut shrinks at least as much");
        }
    }
}

/// the status a cut of a given kind must have
pub fn expected_status(kind: usize, nf: f64, tau: f64, b0: f64, b1: f64) -> CutStatus {
    let tsq = tau * tau;
    match kind {
        0 | 9 => {
            assume_ge(nf * b0, -tau);
            if b0 > tau {
                CutStatus::NoSoln
            } else {
                CutStatus::Success
            }
        }
        1 | 10 => CutStatus::Success,
        2 | 11 => {
            if b0 > tau {
                CutStatus::NoSoln
            } else if nf * b0 < -tau {
                CutStatus::NoEffect
            } else {
                CutStatus::Success
            }
        }
        3 | 6 => {
            if b1 < b0 || b0 > tau || b1 < -tau {
                CutStatus::NoSoln
            } else {
                // depths at which the update shrinks the ellipsoid
                if b1 < tau {
                    assume_ge(tsq + nf * b0 * b1, 0.0);
                } else {
                    assume_ge(nf * b0, -tau);
                }
                CutStatus::Success
            }
        }
        4 | 7 => {
            if b1 < 0.0 {
                CutStatus::NoSoln
            } else {
                CutStatus::Success
            }
        }
        _ => {
            if b1 < b0 || b0 > tau || b1 < -tau {
                CutStatus::NoSoln
            } else if b1 >= tau {
                if nf * b0 < -tau {
                    CutStatus::NoEffect
                } else {
                    CutStatus::Success
                }
            } else if tsq + nf * b0 * b1 <= 0.0 {
                CutStatus::NoEffect
            } else {
                CutStatus::Success
            }
        }
    }
}

/// exact status for every depth, tangency included
pub fn h_calc_status() {
    let kind = param(0);
    let (n, nf) = dim();
    let c = EllCalc::new(n);
    let tau = pos();
    let (b0, b1) = (real(), real());
    let st_expect = expected_status(kind, nf, tau, b0, b1);
    let (st, t) = run(&c, kind, b0, b1, tau * tau);
    check(st == st_expect, "status is exact");
    if st == CutStatus::NoEffect {
        check_eq(t.0, 0.0, "no effect: rho");
        check_eq(t.1, 0.0, "no effect: sigma");
        check_eq(t.2, 1.0, "no effect: delta");
    }
}

fn same(a: (CutStatus, Triple), b: (CutStatus, Triple)) {
    check(a.0 == b.0, "same status");
    check_eq((a.1).0, (b.1).0, "same rho");
    check_eq((a.1).1, (b.1).1, "same sigma");
    check_eq((a.1).2, (b.1).2, "same delta");
}

/// the cut families degenerate into one another
pub fn h_calc_degenerate() {
    let which = param(0);
    let (n, nf) = dim();
    let mut c = EllCalc::new(n);
    let tau = pos();
    let tsq = tau * tau;
    let b0 = real();
    let b1 = real();
    // stay clear of beta = -tau, where the single-cut formula has no value
    assume_gt(b0, -tau);
    match which {
        // a missing second bound is a single cut
        0 => same(run(&c, 9, b0, b1, tsq), c.calc_bias_cut(b0, tsq)),
        1 => same(run(&c, 10, b0, b1, tsq), c.calc_central_cut(tsq)),
        2 => same(run(&c, 11, b0, b1, tsq), c.calc_bias_cut_q(b0, tsq)),
        // a second bound outside the ellipsoid is a single cut
        3 => {
            assume_ge(b1, tau);
            assume_ge(b1, b0);
            same(run(&c, 6, b0, b1, tsq), c.calc_bias_cut(b0, tsq));
        }
        4 => {
            assume_ge(b1, tau);
            same(run(&c, 7, b0, b1, tsq), c.calc_central_cut(tsq));
        }
        5 => {
            assume_ge(b1, tau);
            assume_ge(b1, b0);
            same(run(&c, 8, b0, b1, tsq), c.calc_bias_cut_q(b0, tsq));
        }
        // parallel cuts switched off
        6 => {
            c.use_parallel_cut = false;
            assume_ge(b1, b0);
            same(run(&c, 6, b0, b1, tsq), c.calc_bias_cut(b0, tsq));
        }
        7 => {
            c.use_parallel_cut = false;
            assume_ge(b1, 0.0);
            same(run(&c, 7, b0, b1, tsq), c.calc_central_cut(tsq));
        }
        8 => {
            c.use_parallel_cut = false;
            assume_ge(b1, b0);
            same(run(&c, 8, b0, b1, tsq), c.calc_bias_cut_q(b0, tsq));
        }
        // a deep cut of depth zero is the central cut
        9 => {
            let (s, t) = c.calc_bias_cut(0.0, tsq);
            same((s, t), c.calc_central_cut(tsq));
            same(c.calc_bias_cut_q(0.0, tsq), c.calc_central_cut(tsq));
        }
        // a parallel cut whose first bound is zero is the parallel central cut
        10 => {
            assume_gt(b1, 0.0);
            assume_lt(b1, tau);
            same(c.calc_parallel_bias_cut(0.0, b1, tsq), c.calc_parallel_central_cut(b1, tsq));
        }
        // the dispatchers pass both bounds on
        11 => {
            assume_gt(b1, b0);
            assume_lt(b1, tau);
            same(run(&c, 6, b0, b1, tsq), run(&c, 3, b0, b1, tsq));
            same(run(&c, 8, b0, b1, tsq), run(&c, 5, b0, b1, tsq));
        }
        12 => {
            assume_gt(b1, 0.0);
            same(run(&c, 7, b0, b1, tsq), run(&c, 4, b0, b1, tsq));
        }
        // q cut and deep cut agree where both accept
        13 => {
            assume_ge(nf * b0, -tau);
            same(c.calc_bias_cut_q(b0, tsq), c.calc_bias_cut(b0, tsq));
        }
        14 => {
            assume_gt(b1, b0);
            assume_gt(b1, 0.0);
            assume_lt(b1, tau);
            assume_gt(tsq + nf * b0 * b1, 0.0);
            same(c.calc_parallel_q(b0, b1, tsq), c.calc_parallel_bias_cut(b0, b1, tsq));
        }
        // the two published parallel-cut formulas are the same function
        _ => {
            assume_gt(b1, b0);
            assume_gt(b1, 0.0);
            assume_lt(b1, tau);
            let b0b1 = b0 * b1;
            let eta = tsq + nf * b0b1;
            assume_gt(eta, 0.0);
            let core = EllCalcCore::new(nf);
            let a = core.calc_parallel_bias_cut_fast(b0, b1, tsq, b0b1, eta);
            let b = core.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0b1, eta);
            let d = core.calc_parallel_bias_cut(b0, b1, tsq);
            same((CutStatus::Success, a), (CutStatus::Success, b));
            same((CutStatus::Success, a), (CutStatus::Success, d));
        }
    }
}
