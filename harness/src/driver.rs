//! The cutting-plane drivers against an arbitrary oracle and an arbitrary search space.
use crate::sym::*;
use ellalgo_rs::cutting_plane::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// a cut that can be recognised again
#[derive(Clone, Copy)]
pub struct Tag(f64);

#[derive(Clone)]
pub enum Ev {
    /// oracle asked at this centre (with gamma, retry)
    Ask(f64, f64, bool),
    /// oracle answered: gradient, tag, shrunk, candidate, more alternatives, gamma left behind
    Cut(f64, f64, bool, f64, bool, f64),
    Feasible,
    /// space updated with gradient, tag; kind 0 bias 1 central 2 q; resulting status
    Update(usize, f64, f64, usize),
    Tell(f64),
}
type Log = Rc<RefCell<Vec<Ev>>>;

/// What the environment may do.  Unlimited: every answer in every round is free.  Limited: the answers follow a
/// base pattern (the round's number selects the base answer) and depart from it at most `left` times; the
/// answers that end a run are always free.
#[derive(Clone)]
pub struct Freedom {
    unlimited: bool,
    base: usize,
    left: Rc<Cell<usize>>,
    round: Rc<Cell<usize>>,
}
impl Freedom {
    /// code 0: unlimited; otherwise code % 10 departures from base pattern code / 10 (1000: pattern 0, no departure)
    fn new(code: usize) -> Self {
        if code == 1000 {
            return Freedom { unlimited: false, base: 0, left: Rc::new(Cell::new(0)), round: Rc::new(Cell::new(0)) };
        }
        Freedom { unlimited: code == 0, base: code / 10, left: Rc::new(Cell::new(code % 10)), round: Rc::new(Cell::new(0)) }
    }
    /// an answer whose base value is bit `bit` of the pattern: patterns 0..8 are constant, from 8 on they alternate
    fn bit(&self, bit: usize) -> bool {
        if self.unlimited {
            return flip();
        }
        let mut b = (self.base >> bit) & 1 == 1;
        if self.base >= 8 && self.round.get() % 2 == 1 {
            b = !b;
        }
        if self.left.get() > 0 && flip() {
            self.left.set(self.left.get() - 1);
            b = !b;
        }
        b
    }
}

#[derive(Clone)]
pub struct Space {
    x: f64,
    ts: f64,
    log: Log,
    statuses: usize,
    free: Freedom,
    /// cuts without effect do not end the run
    soft: bool,
}

impl Space {
    fn step(&mut self, kind: usize, g: f64, t: f64) -> CutStatus {
        let s = if self.free.unlimited || !self.soft {
            choice(self.statuses)
        } else if flip() {
            1
        } else if self.free.bit(2) {
            2
        } else {
            0
        };
        self.free.round.set(self.free.round.get() + 1);
        self.log.borrow_mut().push(Ev::Update(kind, g, t, s));
        if s == 0 {
            self.x = real();
        }
        self.ts = real();
        match s {
            0 => CutStatus::Success,
            1 => CutStatus::NoSoln,
            2 => CutStatus::NoEffect,
            _ => CutStatus::Unknown,
        }
    }
}
impl UpdateByCutChoice<Space> for Tag {
    type ArrayType = f64;
    fn update_bias_cut_by(&self, s: &mut Space, g: &f64) -> CutStatus {
        s.step(0, *g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut Space, g: &f64) -> CutStatus {
        s.step(1, *g, self.0)
    }
    fn update_q_by(&self, s: &mut Space, g: &f64) -> CutStatus {
        s.step(2, *g, self.0)
    }
}
impl SearchSpace for Space {
    type ArrayType = f64;
    fn xc(&self) -> f64 {
        self.x
    }
    fn tsq(&self) -> f64 {
        self.ts
    }
    fn update_bias_cut<T>(&mut self, cut: &(f64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = f64>,
    {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T>(&mut self, cut: &(f64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = f64>,
    {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T>(&mut self, cut: &(f64, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = f64>,
    {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: f64) {
        self.x = x;
    }
}

pub struct Oracle {
    log: Log,
    free: Freedom,
}
impl OracleFeas<f64> for Oracle {
    type CutChoice = Tag;
    fn assess_feas(&mut self, x: &f64) -> Option<(f64, Tag)> {
        self.log.borrow_mut().push(Ev::Ask(*x, 0.0, false));
        if flip() {
            self.log.borrow_mut().push(Ev::Feasible);
            return None;
        }
        let (g, t) = (real(), real());
        self.log.borrow_mut().push(Ev::Cut(g, t, false, 0.0, false, 0.0));
        Some((g, Tag(t)))
    }
    fn update(&mut self, gamma: f64) {
        self.log.borrow_mut().push(Ev::Tell(gamma));
    }
}
impl OracleOptim<f64> for Oracle {
    type CutChoice = Tag;
    fn assess_optim(&mut self, x: &f64, gamma: &mut f64) -> ((f64, Tag), bool) {
        self.log.borrow_mut().push(Ev::Ask(*x, *gamma, false));
        let (g, t) = (real(), real());
        let shrunk = self.free.bit(0);
        if shrunk {
            *gamma = real();
        }
        self.log.borrow_mut().push(Ev::Cut(g, t, shrunk, 0.0, false, *gamma));
        ((g, Tag(t)), shrunk)
    }
}
impl OracleOptimQ<f64> for Oracle {
    type CutChoice = Tag;
    fn assess_optim_q(&mut self, x: &f64, gamma: &mut f64, retry: bool) -> ((f64, Tag), bool, f64, bool) {
        self.log.borrow_mut().push(Ev::Ask(*x, *gamma, retry));
        let (g, t, xq) = (real(), real(), real());
        let shrunk = self.free.bit(0);
        let more = self.free.bit(1);
        if shrunk {
            *gamma = real();
        }
        self.log.borrow_mut().push(Ev::Cut(g, t, shrunk, xq, more, *gamma));
        ((g, Tag(t)), shrunk, xq, more)
    }
}

struct Reader {
    v: Vec<Ev>,
    at: usize,
}
impl Reader {
    fn next(&mut self, l: &str) -> Ev {
        let ok = self.at < self.v.len();
        check(ok, l);
        self.at += 1;
        if ok {
            self.v[self.at - 1].clone()
        } else {
            assume(false);
            Ev::Feasible
        }
    }
    fn ask(&mut self, x: f64, gamma: f64, retry: bool) {
        match self.next("the oracle is asked every round") {
            Ev::Ask(y, g, r) => {
                check_eq(y, x, "the oracle is asked at the current centre");
                check_eq(g, gamma, "the oracle sees the current target");
                check(r == retry, "the oracle is told whether the last cut had no effect");
            }
            _ => check(false, "the oracle is asked every round"),
        }
    }
    fn update(&mut self, kind: usize, g: f64, t: f64) -> usize {
        match self.next("every cut is applied") {
            Ev::Update(k, g2, t2, s) => {
                check(k == kind, "the right kind of cut is applied");
                check_eq(g2, g, "the oracle's own cut is applied");
                check_eq(t2, t, "the oracle's own cut is applied");
                s
            }
            _ => {
                check(false, "every cut is applied");
                0
            }
        }
    }
    fn done(&self) {
        check(self.at == self.v.len(), "nothing happens after the run ends");
    }
}
/// centre after each update, in order: the space logs nothing about it, so replay it from a second copy
#[derive(Clone)]
pub struct Watch {
    inner: Space,
    xs: Rc<RefCell<Vec<f64>>>,
    ts: Rc<RefCell<Vec<f64>>>,
}
impl UpdateByCutChoice<Watch> for Tag {
    type ArrayType = f64;
    fn update_bias_cut_by(&self, s: &mut Watch, g: &f64) -> CutStatus {
        s.note(0, *g, self.0)
    }
    fn update_central_cut_by(&self, s: &mut Watch, g: &f64) -> CutStatus {
        s.note(1, *g, self.0)
    }
    fn update_q_by(&self, s: &mut Watch, g: &f64) -> CutStatus {
        s.note(2, *g, self.0)
    }
}
impl Watch {
    fn note(&mut self, k: usize, g: f64, t: f64) -> CutStatus {
        let s = self.inner.step(k, g, t);
        self.xs.borrow_mut().push(self.inner.x);
        self.ts.borrow_mut().push(self.inner.ts);
        s
    }
}
impl SearchSpace for Watch {
    type ArrayType = f64;
    fn xc(&self) -> f64 {
        self.inner.x
    }
    fn tsq(&self) -> f64 {
        self.inner.ts
    }
    fn update_bias_cut<T: UpdateByCutChoice<Self, ArrayType = f64>>(&mut self, cut: &(f64, T)) -> CutStatus {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T: UpdateByCutChoice<Self, ArrayType = f64>>(&mut self, cut: &(f64, T)) -> CutStatus {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T: UpdateByCutChoice<Self, ArrayType = f64>>(&mut self, cut: &(f64, T)) -> CutStatus {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: f64) {
        self.inner.x = x;
    }
}

fn world(statuses: usize, soft: bool, code: usize) -> (Oracle, Watch, Log) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let free = Freedom::new(code);
    let w = Watch {
        inner: Space { x: real(), ts: real(), log: log.clone(), statuses, free: free.clone(), soft },
        xs: Rc::new(RefCell::new(vec![])),
        ts: Rc::new(RefCell::new(vec![])),
    };
    (Oracle { log: log.clone(), free }, w, log)
}

/// params: max_iters
pub fn h_feas() {
    let k = param(0);
    let (mut o, mut s, log) = world(4, false, 0);
    let tol = real();
    let x0 = s.inner.x;
    let (xs, ts) = (s.xs.clone(), s.ts.clone());
    let (r, n) = cutting_plane_feas(&mut o, &mut s, &Options::new(k, tol));
    let mut rd = Reader { v: log.borrow().clone(), at: 0 };
    let mut x = x0;
    let mut ended = false;
    for i in 0..k {
        rd.ask(x, 0.0, false);
        match rd.next("the oracle answers") {
            Ev::Feasible => {
                match r {
                    Some(y) => check_eq(y, x, "the feasible point returned is the one the oracle accepted"),
                    None => check(false, "a feasible point is returned"),
                }
                check(n == i, "iteration count");
                ended = true;
            }
            Ev::Cut(g, t, ..) => {
                let st = rd.update(0, g, t);
                x = xs.borrow()[i];
                if st != 0 || ts.borrow()[i] < tol {
                    check(r.is_none(), "no point without the oracle's consent");
                    check(n == i, "iteration count");
                    ended = true;
                }
            }
            _ => check(false, "the oracle answers"),
        }
        if ended {
            break;
        }
    }
    if !ended {
        check(r.is_none(), "no point without the oracle's consent");
        check(n == k, "iteration count at the limit");
    }
    rd.done();
}

/// params: max_iters, freedom of the environment (see Freedom)
pub fn h_optim() {
    let k = param(0);
    let (mut o, mut s, log) = world(4, false, param(1));
    let tol = real();
    let x0 = s.inner.x;
    let (xs, ts) = (s.xs.clone(), s.ts.clone());
    let g0 = real();
    let mut gamma = g0;
    let (r, n) = cutting_plane_optim(&mut o, &mut s, &mut gamma, &Options::new(k, tol));
    let mut rd = Reader { v: log.borrow().clone(), at: 0 };
    let mut x = x0;
    let mut best: Option<f64> = None;
    let mut gm = g0;
    let mut iters = k;
    for i in 0..k {
        rd.ask(x, gm, false);
        if let Ev::Cut(g, t, shrunk, _, _, g2) = rd.next("the oracle answers") {
            gm = g2;
            if shrunk {
                best = Some(x);
            }
            let st = rd.update(if shrunk { 1 } else { 0 }, g, t);
            x = xs.borrow()[i];
            if st != 0 || ts.borrow()[i] < tol {
                iters = i;
                break;
            }
        } else {
            check(false, "the oracle answers");
        }
    }
    check(n == iters, "iteration count");
    check_eq(gamma, gm, "the target returned is the oracle's last");
    match (r, best) {
        (Some(a), Some(b)) => check_eq(a, b, "the best point is where the target last improved"),
        (None, None) => check(true, "the best point is where the target last improved"),
        _ => check(false, "the best point is where the target last improved"),
    }
    rd.done();
}

/// params: max_iters, freedom of the environment (see Freedom)
pub fn h_optim_q() {
    let k = param(0);
    let (mut o, mut s, log) = world(3, true, param(1));
    let tol = real();
    let x0 = s.inner.x;
    let (xs, ts) = (s.xs.clone(), s.ts.clone());
    let g0 = real();
    let mut gamma = g0;
    let (r, n) = cutting_plane_optim_q(&mut o, &mut s, &mut gamma, &Options::new(k, tol));
    let mut rd = Reader { v: log.borrow().clone(), at: 0 };
    let mut x = x0;
    let mut best: Option<f64> = None;
    let mut gm = g0;
    let mut retry = false;
    let mut iters = k;
    for i in 0..k {
        rd.ask(x, gm, retry);
        if let Ev::Cut(g, t, shrunk, xq, more, g2) = rd.next("the oracle answers") {
            gm = g2;
            if shrunk {
                best = Some(xq);
            }
            let st = rd.update(2, g, t);
            x = xs.borrow()[i];
            retry = st == 2;
            if st == 1 || (st == 2 && !more) || ts.borrow()[i] < tol {
                iters = i;
                break;
            }
        } else {
            check(false, "the oracle answers");
        }
    }
    check(n == iters, "iteration count");
    check_eq(gamma, gm, "the target returned is the oracle's last");
    match (r, best) {
        (Some(a), Some(b)) => check_eq(a, b, "the best point is the discrete candidate of the last improvement"),
        (None, None) => check(true, "the best point is the discrete candidate of the last improvement"),
        _ => check(false, "the best point is the discrete candidate of the last improvement"),
    }
    rd.done();
}

struct Bs {
    asked: Vec<(f64, bool)>,
    t: f64,
    monotone: bool,
    free: Freedom,
}
impl OracleBS for Bs {
    fn assess_bs(&mut self, gamma: f64) -> bool {
        let r = if self.monotone { gamma >= self.t } else { self.free.bit(0) };
        self.free.round.set(self.free.round.get() + 1);
        self.asked.push((gamma, r));
        r
    }
}

/// params: max_iters, 1 = monotone oracle with an unknown threshold, 0 = any oracle
pub fn h_bsearch() {
    let k = param(0);
    let mono = param(1) == 1;
    let (lo, hi) = (real(), real());
    assume_ge(hi, lo);
    let tol = pos();
    let mut o = Bs { asked: vec![], t: 0.0, monotone: mono, free: Freedom::new(param(2)) };
    if mono {
        o.t = real();
        assume_gt(o.t, lo);
        assume_le(o.t, hi);
    }
    let mut iv = (lo, hi);
    let (found, n) = bsearch(&mut o, &mut iv, &Options::new(k, tol));
    check(n <= k, "iteration limit");
    check(o.asked.len() == n, "one question per iteration");
    let (mut l, mut u) = (lo, hi);
    let mut any = false;
    for i in 0..n {
        check_le(tol, (u - l) / 2.0, "no question once the bracket is narrow enough");
        let (g, r) = o.asked[i];
        check_eq(g, (l + u) / 2.0, "questions bisect the bracket");
        if r {
            u = g;
            any = true;
        } else {
            l = g;
        }
    }
    if n < k {
        check_lt((u - l) / 2.0, tol, "stops early only when the bracket is narrow enough");
    }
    check(found == any, "reports whether a feasible target was found");
    check_eq(iv.0, l, "the bracket handed back: lower end");
    check_eq(iv.1, u, "the bracket handed back: upper end");
    if mono {
        check_lt(iv.0, o.t, "the threshold stays in the bracket");
        check_le(o.t, iv.1, "the threshold stays in the bracket");
    }
}

/// an inverted bracket is refused
pub fn h_bsearch_bad() {
    let (lo, hi) = (real(), real());
    assume_lt(hi, lo);
    let mut o = Bs { asked: vec![], t: 0.0, monotone: false, free: Freedom::new(0) };
    let mut iv = (lo, hi);
    expect_panic("an inverted bracket is refused");
    bsearch(&mut o, &mut iv, &Options::new(2, pos()));
}

/// params: number of calls, max_iters
pub fn h_adaptor() {
    let calls = param(0);
    let k = param(1);
    let (o, s, log) = world(2, false, 0);
    let tol = real();
    let (mut centre, ts0) = (s.inner.x, s.inner.ts);
    let xs = s.xs.clone();
    let ts = s.ts.clone();
    let mut a = BSearchAdaptor::new(o, s, Options::new(k, tol));
    let mut at = 0;
    for _ in 0..calls {
        let gamma = real();
        let before = xs.borrow().len();
        let r = a.assess_bs(gamma);
        let mut rd = Reader { v: log.borrow()[at..].to_vec(), at: 0 };
        at = log.borrow().len();
        match rd.next("the oracle is told the target first") {
            Ev::Tell(g) => check_eq(g, gamma, "the oracle is told the target first"),
            _ => check(false, "the oracle is told the target first"),
        }
        // a full search from the kept space
        let mut x = centre;
        let mut found = None;
        for i in 0..k {
            rd.ask(x, 0.0, false);
            match rd.next("the oracle answers") {
                Ev::Feasible => {
                    found = Some(x);
                    break;
                }
                Ev::Cut(g, t, ..) => {
                    let st = rd.update(0, g, t);
                    x = xs.borrow()[before + i];
                    if st != 0 || ts.borrow()[before + i] < tol {
                        break;
                    }
                }
                _ => check(false, "the oracle answers"),
            }
        }
        rd.done();
        check(r == found.is_some(), "feasible exactly when the search finds a point");
        if let Some(y) = found {
            centre = y;
        }
        check_eq(a.space.xc(), centre, "the next search starts from the last feasible point");
        check_eq(a.space.tsq(), ts0, "the search space itself is not consumed");
    }
}
