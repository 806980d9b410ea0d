//! Application oracles: low-pass filter, profit, quasi-convex example, SVM, max-cut.
use crate::sym::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::*;
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;

// ---------------------------------------------------------------- low-pass filter
fn dot(a: &Arr, b: &Arr) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s += a[i] * b[i];
    }
    s
}
/// an oracle in any state it can reach: positions anywhere in their bands
fn lowpass(nd: usize, np: usize, nt: usize, ns: usize) -> LowpassOracle {
    let md = np + nt + ns;
    let spectrum: Vec<Arr> = (0..md).map(|_| vec_real(nd)).collect();
    let (lp, up, sp) = (real(), real(), real());
    let mut o = LowpassOracle::new(nd, 0.25, 0.5, lp, up, sp);
    o.more_alt = flip();
    o.spectrum = spectrum;
    o.nwpass = np as _;
    o.nwstop = (np + nt) as _;
    o.idx1 = (choice(np + 1) as i32 - 1) as _;
    o.idx2 = ((np + choice(nt + 1)) as i32 - 1) as _;
    o.idx3 = ((np + nt + choice(ns + 1)) as i32 - 1) as _;
    o.fmax = real();
    o.kmax = -1;
    o
}
/// the same with many frequencies: fixed distinct responses (one of them unknown), positions near both ends
/// or in the middle of their bands
fn lowpass_big(nd: usize, np: usize, nt: usize, ns: usize) -> LowpassOracle {
    let md = np + nt + ns;
    let mut spectrum: Vec<Arr> = vec![];
    for k in 0..md {
        let mut c = Arr::new(nd);
        for i in 0..nd {
            c[i] = if i == 0 { 1.0 } else { ((k * (i + 2) + 3 * i) % 7) as f64 - 3.0 };
        }
        spectrum.push(c);
    }
    let u = [0, np, np + nt, md - 1][choice(4)];
    spectrum[u] = vec_real(nd);
    let (lp, up, sp) = (real(), real(), real());
    let mut o = LowpassOracle::new(nd, 0.25, 0.5, lp, up, sp);
    o.spectrum = spectrum;
    o.nwpass = np as _;
    o.nwstop = (np + nt) as _;
    let at = |n: usize, p: usize| [0, n / 2, n - 1, n][p];
    let p = choice(4);
    o.idx1 = (at(np, p) as i32 - 1) as _;
    o.idx2 = ((np + at(nt, p)) as i32 - 1) as _;
    o.idx3 = ((np + nt + at(ns, p)) as i32 - 1) as _;
    o
}
struct Band {
    np: usize,
    nt: usize,
    ns: usize,
    i1: i32,
    i2: i32,
    i3: i32,
}
fn cyc(i: i32, from: usize, len: usize) -> usize {
    // successor of i in from..from+len
    if i + 1 >= (from + len) as i32 {
        from
    } else {
        (i + 1) as usize
    }
}
/// what the call must report: Some((column, negated, beta0, beta1)); column None: the leading coefficient
fn lowpass_model(o: &LowpassOracle, b: &Band, x: &Arr) -> Option<(Option<usize>, bool, f64, Option<f64>)> {
    let mut i = b.i1;
    for _ in 0..b.np {
        let k = cyc(i, 0, b.np);
        i = k as i32;
        let v = dot(&o.spectrum[k], x);
        if v > o.up_sq {
            return Some((Some(k), false, v - o.up_sq, Some(v - o.lp_sq)));
        }
        if v < o.lp_sq {
            return Some((Some(k), true, o.lp_sq - v, Some(o.up_sq - v)));
        }
    }
    i = b.i3;
    for _ in 0..b.ns {
        let k = cyc(i, b.np + b.nt, b.ns);
        i = k as i32;
        let v = dot(&o.spectrum[k], x);
        if v > o.sp_sq {
            return Some((Some(k), false, v - o.sp_sq, Some(v)));
        }
        if v < 0.0 {
            return Some((Some(k), true, -v, Some(o.sp_sq - v)));
        }
    }
    i = b.i2;
    for _ in 0..b.nt {
        let k = cyc(i, b.np, b.nt);
        i = k as i32;
        let v = dot(&o.spectrum[k], x);
        if v < 0.0 {
            return Some((Some(k), true, -v, None));
        }
    }
    if x[0] < 0.0 {
        return Some((None, true, -x[0], None));
    }
    None
}
/// assume that z meets the specification
fn meets(o: &LowpassOracle, np: usize, nt: usize, ns: usize, z: &Arr, sp: f64) {
    for k in 0..np + nt + ns {
        let v = dot(&o.spectrum[k], z);
        if k < np {
            assume_ge(v, o.lp_sq);
            assume_le(v, o.up_sq);
        } else {
            assume_ge(v, 0.0);
            if k >= np + nt {
                assume_le(v, sp);
            }
        }
    }
    assume_ge(z[0], 0.0);
}
fn in_band(o: &LowpassOracle, np: usize, nt: usize, ns: usize) {
    let l = "positions stay inside their bands";
    let (i1, i2, i3) = (o.idx1 as i64, o.idx2 as i64, o.idx3 as i64);
    check(i1 >= -1 && i1 < np as i64, l);
    check(i2 >= np as i64 - 1 && i2 < (np + nt) as i64, l);
    check(i3 >= (np + nt) as i64 - 1 && i3 < (np + nt + ns) as i64, l);
    check(o.nwpass as i64 == np as i64 && o.nwstop as i64 == (np + nt) as i64, l);
}
/// params: dimension, passband, transition, stopband sizes, optimise (1) or not, check (0 cut, 1 validity)
pub fn h_lowpass() {
    let (nd, np, nt, ns, opt, what) = (param(0), param(1), param(2), param(3), param(4) == 1, param(5));
    let mut o = if param(6) == 1 { lowpass_big(nd, np, nt, ns) } else { lowpass(nd, np, nt, ns) };
    let x = vec_real(nd);
    let b = Band { np, nt, ns, i1: o.idx1 as i32, i2: o.idx2 as i32, i3: o.idx3 as i32 };
    let mut sp = if opt { real() } else { o.sp_sq };
    let sp0 = sp;
    let (lp, up) = (o.lp_sq, o.up_sq);
    let cols = o.spectrum.clone();
    let (cut, shrunk) = if opt {
        let (c, s) = o.assess_optim(&x, &mut sp);
        (Some(c), s)
    } else {
        (o.assess_feas(&x), false)
    };
    in_band(&o, np, nt, ns);
    check_eq(o.lp_sq, lp, "the specification is left alone");
    check_eq(o.up_sq, up, "the specification is left alone");
    check_eq(o.sp_sq, sp0, "the stopband level is the one asked for");
    for k in 0..cols.len() {
        for i in 0..nd {
            check_eq(o.spectrum[k][i], cols[k][i], "the specification is left alone");
        }
    }
    if what == 1 {
        // every design that meets the specification survives both sides of the cut
        if let Some((g, ParallelCut(b0, b1))) = cut {
            let z = vec_real(nd);
            meets(&o, np, nt, ns, &z, if shrunk { sp } else { sp0 });
            let mut d = 0.0;
            for i in 0..nd {
                d += g[i] * (z[i] - x[i]);
            }
            check_le(d + b0, 0.0, "designs that meet the specification survive the cut");
            if let Some(b1) = b1 {
                check_le(0.0, d + b1, "designs that meet the specification survive the parallel cut");
            }
            if !shrunk {
                check_lt(0.0, b0, "a design that breaks the specification is cut off");
            } else {
                check_eq(b0, 0.0, "the best design so far stays on the cut");
                check_le(sp, sp0, "the stopband level only falls");
            }
        } else {
            check(true, "designs that meet the specification survive the cut");
        }
        return;
    }
    match (lowpass_model(&o, &b, &x), cut) {
        (None, c) => {
            check(!o.more_alt, "all frequencies were examined");
            let mut best = f64::NEG_INFINITY;
            for k in np + nt..np + nt + ns {
                let v = dot(&cols[k], &x);
                if v > best {
                    best = v;
                }
            }
            check_eq(o.fmax, best, "peak of the stopband");
            check(o.kmax >= (np + nt) as i32 && o.kmax < (np + nt + ns) as i32, "peak of the stopband");
            check_eq(dot(&cols[o.kmax as usize], &x), best, "peak of the stopband");
            if opt {
                check(shrunk, "a design that meets the specification is accepted");
                check_eq(sp, best, "the new stopband level is the peak");
                let (g, ParallelCut(b0, b1)) = c.unwrap();
                for i in 0..nd {
                    check_eq(g[i], cols[o.kmax as usize][i], "the cut after an improvement is taken at the peak");
                }
                check_eq(b0, 0.0, "the cut after an improvement is taken at the peak");
                check(b1.is_some(), "the cut after an improvement is taken at the peak");
                check_eq(b1.unwrap_or(0.0), best, "the cut after an improvement is taken at the peak");
            } else {
                check(c.is_none(), "a design that meets the specification is accepted");
            }
        }
        (Some((k, neg, b0, b1)), Some((g, ParallelCut(c0, c1)))) => {
            let l = "the cut is the first violated constraint in turn";
            check(!shrunk, "a design that breaks the specification is not accepted");
            check_eq(sp, sp0, "the level is left alone on failure");
            for i in 0..nd {
                let c = match k {
                    Some(k) => cols[k][i],
                    None => {
                        if i == 0 {
                            1.0
                        } else {
                            0.0
                        }
                    }
                };
                check_eq(g[i], if neg { -c } else { c }, l);
            }
            check_eq(c0, b0, "depth of the cut");
            check(b1.is_some() == c1.is_some(), "depth of the cut");
            check_eq(c1.unwrap_or(0.0), b1.unwrap_or(0.0), "depth of the cut");
            check(o.more_alt == k.is_some(), "all frequencies were examined");
        }
        _ => check(false, "a design that breaks the specification is not accepted"),
    }
}
/// params: dimension, band edges (0..3): the discretisation
pub fn h_lowpass_new() {
    let (nd, e) = (param(0), param(1));
    let (wp, ws) = [(0.12, 0.2), (0.3, 0.5), (0.0, 0.25), (0.5, 0.75)][e];
    let (lp, up, sp) = (real(), real(), real());
    let o = LowpassOracle::new(nd, wp, ws, lp, up, sp);
    let md = 15 * nd;
    check(o.spectrum.len() == md, "15 frequencies per coefficient");
    check_eq(o.lp_sq, lp, "levels are kept");
    check_eq(o.up_sq, up, "levels are kept");
    check_eq(o.sp_sq, sp, "levels are kept");
    for k in 0..md {
        let w = std::f64::consts::PI * (k as f64) / ((md - 1) as f64);
        for j in 0..nd {
            let c = o.spectrum[k][j];
            let want = if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() };
            check((c - want).abs() <= 1e-9, "cosine basis on [0, pi]");
        }
        let f = (k as f64) / ((md - 1) as f64);
        let wp1 = (wp * (md - 1) as f64).floor() / (md - 1) as f64;
        let ws1 = (ws * (md - 1) as f64).floor() / (md - 1) as f64;
        check(((k as i32) < o.nwpass) == (f <= wp1 + 1e-9), "passband ends at its edge");
        check(((k as i32) < o.nwstop) == (f <= ws1 + 1e-9), "stopband starts at its edge");
    }
    check(o.idx1 == -1 && o.idx2 == o.nwpass - 1 && o.idx3 == o.nwstop - 1, "every band is scanned from its start");
    if e == 0 {
        let c = create_lowpass_case(nd);
        check(c.nwpass == o.nwpass && c.nwstop == o.nwstop && c.spectrum.len() == md, "standard case");
        check(c.lp_sq <= 1.0 && 1.0 <= c.up_sq, "standard case: unit gain lies within the passband levels");
        check((c.up_sq - 1.025 * 1.025).abs() <= 1e-9, "standard case: 2.5 % ripple");
        check((c.lp_sq * c.up_sq - 1.0).abs() <= 1e-9, "standard case: same ripple up and down");
        check(0.0 < c.sp_sq && c.sp_sq < c.lp_sq, "standard case: the stopband level lies below the passband");
    }
}

// ---------------------------------------------------------------- quasi-convex example
/// params: number of earlier queries, what (0 exact, 1 validity)
pub fn h_quasicvx() {
    let (hist, what) = (param(0), param(1));
    let mut o = MyOracle::default();
    for _ in 0..hist {
        let p = vec_real(2);
        let mut g = nonneg();
        o.assess_optim(&p, &mut g);
    }
    let p = vec_real(2);
    let (x, y) = (p[0], p[1]);
    let g0 = nonneg();
    let mut gamma = g0;
    let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&p, &mut gamma);
    let e = y.exp();
    let f0 = x * x - y;
    let f1 = -x + g0 * e;
    check(shrunk == (f0 <= 0.0 && f1 <= 0.0), "accepted exactly when both constraints hold");
    check(g.len() == 2, "gradient size");
    if shrunk {
        check_eq(gamma * e, x, "the target becomes the objective at the point");
        check_le(g0, gamma, "the target never falls");
        check_eq(beta, 0.0, "the best point so far stays on the cut");
    } else {
        check_eq(gamma, g0, "the target is left alone on failure");
        check_lt(0.0, beta, "a point that breaks a constraint is cut off");
    }
    if what == 1 {
        // every point that meets both constraints at the (new) target survives
        let z = vec_real(2);
        let ez = z[1].exp();
        assume_le(z[0] * z[0], z[1]);
        assume_le(gamma * ez, z[0]);
        // exp lies above its tangents
        assume_ge(ez, e * (1.0 + z[1] - y));
        check_le(g[0] * (z[0] - x) + g[1] * (z[1] - y) + beta, 0.0, "points that meet the constraints survive the cut");
    } else if !shrunk {
        // the cut is the value and gradient of a violated constraint
        if f0 > 0.0 && beta == f0 && g[0] == 2.0 * x && g[1] == -1.0 {
            check(true, "the cut is a violated constraint");
        } else {
            check(f1 > 0.0, "the cut is a violated constraint");
            check_eq(beta, f1, "the cut is a violated constraint");
            check_eq(g[0], -1.0, "the cut is a violated constraint");
            check_eq(g[1], g0 * e, "the cut is a violated constraint");
        }
    } else {
        check_eq(g[0], -1.0, "the cut after an improvement is the objective's");
        check_eq(g[1], x, "the cut after an improvement is the objective's");
    }
    observe(beta, "beta");
}

// ---------------------------------------------------------------- profit
struct Prof {
    p: f64,
    s: f64,
    lim: f64,
    a: Arr,
    v: Arr,
}
fn prof() -> Prof {
    Prof { p: pos(), s: pos(), lim: pos(), a: vec_real(2), v: Arr::from(vec![pos(), pos()]) }
}
struct Eval {
    /// log of revenue
    lc: f64,
    /// cost terms
    q: [f64; 2],
    /// the two constraints
    f: [f64; 2],
    /// gamma + cost
    tot: f64,
}
fn eval(w: &Prof, a: &[f64; 2], y: &Arr, gamma: f64) -> Eval {
    let lc = (w.p * w.s).ln() + a[0] * y[0] + a[1] * y[1];
    let q = [w.v[0] * y[0].exp(), w.v[1] * y[1].exp()];
    let tot = gamma + q[0] + q[1];
    Eval { lc, q, tot, f: [y[0] - w.lim.ln(), tot.ln() - lc] }
}
/// the demands on one answer of the profit oracle asked at y with parameters w, elasticities a
fn profit_answer(w: &Prof, a: &[f64; 2], y: &Arr, g0: f64, ans: &((Arr, SingleCut), bool), gamma: f64, what: usize) {
    let ((g, SingleCut(beta)), shrunk) = (&ans.0, ans.1);
    let beta = *beta;
    let e = eval(w, a, y, g0);
    check(shrunk == (e.f[0] <= 0.0 && e.f[1] <= 0.0), "accepted exactly when both constraints hold");
    check(g.len() == 2, "gradient size");
    if shrunk {
        let rev = e.lc.exp();
        check_eq(gamma, rev - e.q[0] - e.q[1], "the target becomes the profit at the point");
        check_eq(beta, 0.0, "the best point so far stays on the cut");
        check_le(g0, gamma, "the target never falls");
        if what == 1 {
            // same feasible set as ln(gamma' + cost) <= log revenue at the new target
            for i in 0..2 {
                check_eq(g[i], e.q[i] / rev - a[i], "the cut after an improvement is the objective's gradient");
            }
        }
    } else {
        check_eq(gamma, g0, "the target is left alone on failure");
        check_lt(0.0, beta, "a point that breaks a constraint is cut off");
        if what == 1 {
            let l = "the cut is the value and gradient of a violated constraint";
            if e.f[0] > 0.0 && beta == e.f[0] && g[0] == 1.0 && g[1] == 0.0 {
                check(true, l);
            } else {
                check(e.f[1] > 0.0, l);
                check_eq(beta, e.f[1], l);
                for i in 0..2 {
                    check_eq(g[i], e.q[i] / e.tot - a[i], l);
                }
            }
        }
    }
    if what == 2 {
        // any point z within the limit that reaches the target survives
        let z = vec_real(2);
        let ez = eval(w, a, &z, gamma);
        let ey = eval(w, a, y, gamma);
        assume_gt(ez.tot, 0.0);
        assume_gt(ey.tot, 0.0);
        let lhs = g[0] * (z[0] - y[0]) + g[1] * (z[1] - y[1]) + beta;
        let ly = if shrunk { e.lc } else { ey.tot.ln() };
        let l = "points at least as profitable survive the cut";
        // log-sum-exp lies above its tangents: ln(tot(z)) >= tangent, hence tangent - log revenue(z) <= f1(z) <= 0
        let tangent = ly + ey.q[0] / ey.tot * (z[0] - y[0]) + ey.q[1] / ey.tot * (z[1] - y[1]);
        if lhs == ez.f[0] {
            check(true, l);
        } else if lhs == tangent - ez.lc {
            check(true, l);
        } else {
            assume_ge(ez.tot.ln(), tangent);
            assume_le(ez.f[0], 0.0);
            assume_le(ez.f[1], 0.0);
            check_le(lhs, 0.0, l);
        }
    }
}
/// params: number of earlier queries, what (0 verdict and target, 1 cut, 2 validity)
pub fn h_profit() {
    let (hist, what) = (param(0), param(1));
    let w = prof();
    let mut o = ProfitOracle::new((w.p, w.s, w.lim), w.a.clone(), w.v.clone());
    for _ in 0..hist {
        let y = vec_real(2);
        let mut g = nonneg();
        o.assess_optim(&y, &mut g);
    }
    let y = vec_real(2);
    let g0 = nonneg();
    let mut gamma = g0;
    let ans = o.assess_optim(&y, &mut gamma);
    profit_answer(&w, &[w.a[0], w.a[1]], &y, g0, &ans, gamma, what);
}
/// params: number of earlier queries, what
pub fn h_profit_rb() {
    let (hist, what) = (param(0), param(1));
    let w = prof();
    let e: Vec<f64> = (0..5).map(|_| nonneg()).collect();
    // the worst case still has a positive price and limit
    assume_gt(w.p, e[2]);
    assume_gt(w.lim, e[3]);
    let mut o = ProfitRbOracle::new(
        (w.p, w.s, w.lim),
        w.a.clone(),
        w.v.clone(),
        (e[0], e[1], e[2], e[3], e[4]),
    );
    for _ in 0..hist {
        let y = vec_real(2);
        let mut g = nonneg();
        o.assess_optim(&y, &mut g);
    }
    let y = vec_real(2);
    let g0 = nonneg();
    let mut gamma = g0;
    let ans = o.assess_optim(&y, &mut gamma);
    let wr = Prof {
        p: w.p - e[2],
        s: w.s,
        lim: w.lim - e[3],
        a: w.a.clone(),
        v: Arr::from(vec![w.v[0] + e[4], w.v[1] + e[4]]),
    };
    let a = [
        if y[0] > 0.0 { w.a[0] - e[0] } else { w.a[0] + e[0] },
        if y[1] > 0.0 { w.a[1] - e[1] } else { w.a[1] + e[1] },
    ];
    profit_answer(&wr, &a, &y, g0, &ans, gamma, what);
    // the scenario used is the least favourable one of the box
    let t = vec_real(2);
    for i in 0..2 {
        assume_ge(t[i], -e[i]);
        assume_le(t[i], e[i]);
    }
    check_le(
        a[0] * y[0] + a[1] * y[1],
        (w.a[0] + t[0]) * y[0] + (w.a[1] + t[1]) * y[1],
        "the scenario is the least favourable one",
    );
}
/// params: number of earlier queries, retry (0 first attempt, 1 retry), what
pub fn h_profit_q() {
    let (hist, retry, what) = (param(0), param(1) == 1, param(2));
    let w = prof();
    let mut o = ProfitOracleQ::new((w.p, w.s, w.lim), w.a.clone(), w.v.clone());
    let mut last: Option<Arr> = None;
    for _ in 0..hist {
        let y = vec_real(2);
        let mut g = nonneg();
        let g1 = g;
        let (_, _, xq, _) = o.assess_optim_q(&y, &mut g, false);
        let e = eval(&w, &[w.a[0], w.a[1]], &y, g1);
        if e.f[0] <= 0.0 && e.f[1] <= 0.0 {
            last = Some(xq);
        }
    }
    let y = vec_real(2);
    let g0 = nonneg();
    let mut gamma = g0;
    let ((g, SingleCut(beta)), shrunk, yd, more) = o.assess_optim_q(&y, &mut gamma, retry);
    check(more == !retry || !retry, "at most one retry per candidate");
    check(g.len() == 2 && yd.len() == 2, "gradient size");
    let a = [w.a[0], w.a[1]];
    if !retry {
        let e = eval(&w, &a, &y, g0);
        check(more, "another attempt is allowed after the first");
        if e.f[0] > 0.0 || e.f[1] > 0.0 {
            // the continuous point already fails
            let ans = ((g.clone(), SingleCut(beta)), shrunk);
            profit_answer(&w, &a, &y, g0, &ans, gamma, what);
            return;
        }
        // nearest positive integers
        for i in 0..2 {
            let r = y[i].exp().round();
            let k = if r == 0.0 { 1.0 } else { r };
            check_eq(yd[i], k.ln(), "the candidate is the nearest positive integer input");
        }
    } else {
        check(!more, "no further attempt after a retry");
        if let Some(l) = &last {
            for i in 0..2 {
                check_eq(yd[i], l[i], "a retry uses the same candidate");
            }
        }
    }
    // the answer is the oracle's at the candidate, re-based at the query point
    let rebased = beta - (g[0] * (y[0] - yd[0]) + g[1] * (y[1] - yd[1]));
    let wrong = beta + (g[0] * (y[0] - yd[0]) + g[1] * (y[1] - yd[1]));
    let ed = eval(&w, &a, &yd, g0);
    let ok = ed.f[0] <= 0.0 && ed.f[1] <= 0.0;
    check(shrunk == ok, "a candidate is accepted exactly when it meets the constraints");
    if shrunk {
        let rev = ed.lc.exp();
        check_eq(gamma, rev - ed.q[0] - ed.q[1], "the target becomes the profit of the candidate");
    } else {
        check_eq(gamma, g0, "the target is left alone on failure");
    }
    let limit = !ok && g[0] == 1.0 && g[1] == 0.0 && ed.f[0] > 0.0 && (rebased == ed.f[0] || wrong == ed.f[0]);
    let want = if ok {
        0.0
    } else if limit {
        ed.f[0]
    } else {
        ed.f[1]
    };
    if what == 9 {
        check_eq(rebased, want, "the candidate's cut is moved to the query point on the candidate's side");
    } else if rebased == want {
        check(true, "the candidate's cut is re-based at the query point");
    } else {
        // known finding: the shift has the wrong sign; nothing else may be wrong with it
        check_eq(wrong, want, "the candidate's cut is re-based at the query point");
    }
    if ok && what == 1 {
        let rev = ed.lc.exp();
        for i in 0..2 {
            check_eq(g[i], ed.q[i] / rev - a[i], "the cut after an improvement is the objective's gradient");
        }
    } else if what == 1 && !limit {
        check(ed.f[1] > 0.0, "the cut is the value and gradient of a violated constraint");
        for i in 0..2 {
            check_eq(g[i], ed.q[i] / ed.tot - a[i], "the cut is the value and gradient of a violated constraint");
        }
    }
}

// ---------------------------------------------------------------- support vector machine
/// params: samples, features
pub fn h_svm() {
    let (m, n, what) = (param(0), param(1), param(2));
    let mut data = Arr::zeros(m, n);
    // many samples: fixed data, one sample unknown
    let big = param(4) == 1;
    let unknown = if big { [0, m / 2, m - 1][choice(3)] } else { m };
    for k in 0..m * n {
        data[k] = if !big || k / n == unknown { real() } else { ((k * 5 + 2) % 7) as f64 - 3.0 };
    }
    let labels: Vec<i32> =
        (0..m).map(|i| if big && i != unknown { 1 - 2 * (i as i32 % 2) } else if flip() { 1 } else { -1 }).collect();
    let mut o = SvmOracle::new(data.clone(), labels.clone());
    let point = |u: usize| {
        let mut x = Arr::new(n + 1);
        for i in 0..=n {
            x[i] = if !big || i == u { real() } else { ((i * 3 + u) % 5) as f64 - 2.0 };
        }
        x
    };
    let mut x = point(n);
    let mut gamma = real();
    if param(3) == 1 {
        // an earlier query elsewhere
        o.assess_optim(&x, &mut gamma);
        x = point(0);
        gamma = real();
    }
    let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&x, &mut gamma);
    check(shrunk, "every answer improves the target");
    check(g.len() == n + 1, "one gradient entry per weight and one for the offset");
    let margin = |z: &Arr, i: usize| {
        let mut s = z[n];
        for j in 0..n {
            s += data.at(i, j) * z[j];
        }
        s * labels[i] as f64
    };
    let mut all = true;
    let mut min = margin(&x, 0);
    for i in 0..m {
        let v = margin(&x, i);
        if v < min {
            min = v;
        }
        if v < 1.0 {
            all = false;
        }
    }
    if all {
        check_eq(gamma, 0.0, "separated with margin: the target is zero");
        for j in 0..=n {
            check_eq(g[j], 0.0, "separated with margin: no direction is left");
        }
        check_eq(beta, 0.0, "separated with margin: no direction is left");
        return;
    }
    check_eq(gamma, min, "the target is the smallest margin");
    if what == 1 {
        // a point whose every margin is larger must survive
        let z = vec_real(n + 1);
        for i in 0..m {
            assume_gt(margin(&z, i), min);
        }
        let mut d = beta;
        for j in 0..=n {
            d += g[j] * (z[j] - x[j]);
        }
        check_le(d, 0.0, "points with a larger smallest margin survive the cut");
        return;
    }
    // the direction is the negated margin gradient of a worst sample
    let mut hit = false;
    for i in 0..m {
        if hit {
            continue;
        }
        if margin(&x, i) == min {
            let s = -(labels[i] as f64);
            let mut same = g[n] == s;
            for j in 0..n {
                same = same && g[j] == s * data.at(i, j);
            }
            hit = same;
        }
    }
    check(hit, "the direction is the negated margin gradient of a worst sample");
}

// ---------------------------------------------------------------- max-cut
/// params: vertices, earlier queries
pub fn h_maxcut() {
    let (n, hist) = (param(0), param(1));
    let w = sym_mat(n);
    let mut o = MaxcutOracle::new(w.clone());
    let mut gamma = real();
    // many vertices: only two (or three) coordinates of the point unknown
    let point = |_: usize| {
        let mut x = Arr::new(n);
        for i in 0..n {
            x[i] = if param(2) == 0 || i == n / 2 || i == n - 1 { real() } else { ((i * 3) % 5) as f64 - 2.0 };
        }
        x
    };
    for k in 0..hist {
        let x = point(k);
        o.assess_optim(&x, &mut gamma);
    }
    let g0 = gamma;
    let x = point(hist);
    let ((g, SingleCut(beta)), shrunk) = o.assess_optim(&x, &mut gamma);
    let side: Vec<bool> = (0..n).map(|i| x[i] >= 0.0).collect();
    let mut cut = 0.0;
    let mut cross = vec![0.0; n];
    for i in 0..n {
        for j in 0..n {
            if side[i] != side[j] {
                cross[i] += w.at(i, j);
                if i < j {
                    cut += w.at(i, j);
                }
            }
        }
    }
    check(shrunk == (cut > g0), "improved exactly when the rounded partition cuts more");
    check_eq(gamma, if shrunk { cut } else { g0 }, "the target is the best cut value so far");
    check(g.len() == n, "one gradient entry per vertex");
    for i in 0..n {
        check_eq(g[i], -2.0 * cross[i], "direction: twice the weight each vertex cuts, negated");
    }
    check_eq(beta, if shrunk { -cut } else { g0 }, "depth reported with the answer");
}
/// a weight matrix that is not square is refused
pub fn h_maxcut_bad() {
    expect_panic("a weight matrix that is not square is refused");
    match param(0) {
        0 => drop(MaxcutOracle::new(Arr::zeros(2, 3))),
        1 => drop(MaxcutOracle::new(Arr::zeros(3, 2))),
        _ => drop(MaxcutOracle::new(Arr::new(3))),
    }
}
