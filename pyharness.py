"""Harness entries for /repo/python_ai.  `S` is the symbolic API (engine/pyfront.py) or its native twin
(pyreplay.py), `E` the package `ellalgo` of the working tree."""


def statuses(E):
    C = E.cutting_plane_mod.CutStatus
    return [C.SUCCESS, C.NO_SOLN, C.NO_EFFECT, C.UNKNOWN]


def mods(E):
    import ellalgo.cutting_plane as cp
    import ellalgo.ell as el
    import ellalgo.ell_calc as ec
    import sys
    E.cutting_plane_mod = sys.modules["ellalgo.cutting_plane"]
    E.ell_mod = sys.modules["ellalgo.ell"]
    E.calc_mod = sys.modules["ellalgo.ell_calc"]
    return E


def same_vec(S, a, b, l):
    S.check(len(a) == len(b), l + " (length)")
    for p, q in zip(a, b):
        S.check_eq(p, q, l)


class Space:
    """a search space with arbitrary answers; a refused cut leaves it as it was"""

    def __init__(self, S, E, fixed=None):
        self.S, self.E = S, E
        self.c = [S.real(), S.real()]
        self.t = S.real() if fixed is None else S.const(fixed)
        self.fixed = fixed
        self.log = []
        self.rounds = 0

    def xc(self):
        return self.S.array(self.c)

    def tsq(self):
        return self.t

    def update_bias_cut(self, cut):
        return self._cut("bias", cut)

    def update_central_cut(self, cut):
        return self._cut("central", cut)

    def update_q(self, cut):
        return self._cut("q", cut)

    def set_xc(self, x):
        self.log.append(("set", x))

    def _cut(self, kind, cut):
        S = self.S
        if self.fixed is not None:
            self.rounds += 1
            return statuses(self.E)[0]
        st = statuses(self.E)[S.choice(4)]
        self.log.append((kind, cut, st))
        if st == statuses(self.E)[0]:
            self.c = [S.real(), S.real()]
            self.t = S.real()
        return st


class Feas:
    def __init__(self, S, never=False):
        self.S, self.asked, self.gave = S, [], []
        self.never = never

    def assess_feas(self, xc):
        S = self.S
        if self.never:
            return (S.array([S.const(1), S.const(0)]), S.const(-1))
        self.asked.append(list(xc))
        if S.choice(2) == 0:
            self.gave.append(None)
            return None
        cut = (S.array([S.real(), S.real()]), S.real())
        self.gave.append(cut)
        return cut


class Optim:
    def __init__(self, S):
        self.S, self.asked, self.gave, self.gamma = S, [], [], []

    def assess_optim(self, xc, gamma):
        S = self.S
        self.asked.append(list(xc))
        self.gamma.append(gamma)
        opt = S.choice(2) == 0
        cut = (S.array([S.real(), S.real()]), S.real())
        self.gave.append((cut, opt))
        return cut, opt


def same_cut(S, a, b, l):
    S.check(len(a) == 2, l)
    same_vec(S, a[0], b[0], l)
    S.check_eq(a[1], b[1], l)


def drive(S, E, kind, limit, dispatch):
    """one run of a driver against an arbitrary oracle and space; the whole run against the contract"""
    ok = statuses(E)[0]
    unknown = statuses(E)[3]
    tol = S.real()
    space = Space(S, E)
    start = list(space.c)
    opts = E.cutting_plane_mod.Options(limit, tol)
    trace = [start]
    orig = space._cut

    def cut(k, c):
        st = orig(k, c)
        trace.append(list(space.c))
        ts.append(space.t)
        return st
    ts = []
    space._cut = cut
    oracle = Feas(S) if kind == 0 else Optim(S)
    cp = E.cutting_plane_mod
    if dispatch:
        st, x, obj, it = cp.cutting_plane(oracle, space, opts)
        if kind == 0:
            S.check(obj is None, "no objective for a feasibility problem")
    elif kind == 0:
        st, x, it = cp.cutting_plane_feas(oracle, space, opts)
    else:
        st, x, obj, it = cp.cutting_plane_optim(oracle, space, opts)
    # replay of the contract
    n = len(oracle.asked)
    for k in range(n):
        same_vec(S, oracle.asked[k], trace[k], "the oracle is asked at the current centre")
    for k, (kd, c, s) in enumerate(space.log):
        S.check(kd == "bias", "an oracle cut is a bias cut")
        g = oracle.gave[k] if kind == 0 else oracle.gave[k][0]
        same_cut(S, c, g, "the space is given the oracle's cut")
    want = None
    k = 0
    while want is None:
        if k == limit:
            want = (unknown, trace[k], limit, k, k)
            break
        S.check(n > k, "the oracle is asked in every round")
        accepted = oracle.gave[k] is None if kind == 0 else oracle.gave[k][1]
        if accepted:
            want = (ok, trace[k], k, k + 1, k)
            break
        S.check(len(space.log) > k, "every cut is applied")
        s = space.log[k][2]
        if s != ok:
            want = (s, trace[k], k, k + 1, k + 1)
            break
        if ts[k] < tol:
            want = (ok, trace[k + 1], k, k + 1, k + 1)
            break
        k += 1
    S.check(st == want[0], "the status says how the run ended")
    same_vec(S, x, want[1], "the point returned")
    S.check(it == want[2], "the number of rounds returned")
    S.check(n == want[3], "nothing is asked after the end")
    S.check(len(space.log) == want[4], "nothing is cut after the end")
    if kind == 1 and n:
        S.check_eq(obj, oracle.gamma[-1], "the objective returned is the target last put to the oracle")
    S.observe(it, "rounds")


def py_feas(S, E):
    drive(S, mods(E), 0, S.param(0), S.param(1))


def py_optim(S, E):
    drive(S, mods(E), 1, S.param(0), S.param(1))


def py_default(S, E):
    """without options: 2000 rounds, tolerance 1e-20"""
    mods(E)
    cp = E.cutting_plane_mod
    o = cp.Options()
    S.check(o.max_iters == 2000, "default limit")
    S.check_eq(o.tolerance, 1e-20, "default tolerance")
    t = S.real()
    m = S.choice(5)
    o = cp.Options(max_iters=7, tolerance=t)
    S.check(o.max_iters == 7, "limit as given")
    S.check_eq(o.tolerance, t, "tolerance as given")
    if m == 0:
        space = Space(S, E, 1)
        st, x, it = cp.cutting_plane_feas(Feas(S, True), space)
        S.check(st == statuses(E)[3], "the run without options ends at the default limit")
        S.check(it == 2000 and space.rounds == 2000, "the default limit is 2000 rounds")
    elif m == 1:
        class Tiny(Space):
            def tsq(self):
                return t if self.rounds == 1 else S.const(1)
        space = Tiny(S, E, 1)
        st, x, it = cp.cutting_plane_feas(Feas(S, True), space)
        if t < 1e-20:
            S.check(it == 0 and st == statuses(E)[0], "the default tolerance ends the run")
        else:
            S.check(it == 2000, "the default tolerance ends no other run")
    elif m >= 3:
        class Never:
            def assess_optim(self, xc, gamma):
                return (S.array([S.const(1), S.const(0)]), S.const(-1)), False

        class Tiny(Space):
            def tsq(self):
                return t if self.rounds == 1 else S.const(1)
        space = Tiny(S, E, 1)
        go = cp.cutting_plane_optim if m == 3 else cp.cutting_plane
        st, x, obj, it = go(Never(), space)
        if t < 1e-20:
            S.check(it == 0 and st == statuses(E)[0], "the default tolerance ends the optimisation")
        else:
            S.check(it == 2000 and st == statuses(E)[3], "the optimisation without options ends at the default limit")
    else:
        class BS:
            n = 0

            def assess_bs(self, g):
                self.n += 1
                return self.n % 2 == 0
        b = BS()
        st, v, it = cp.binary_search(b, S.const(0), S.const(1))
        S.check(st == statuses(E)[0] and it == 67 and b.n == 67, "binary search without options uses the default tolerance")
    S.observe(m, "case")


def py_bsearch(S, E):
    """arbitrary (mode 0) or monotone (mode 1) oracle"""
    mods(E)
    limit, mode = S.param(0), S.param(1)
    lo, hi, tol = S.real(), S.real(), S.real()
    S.assume_ge(hi, lo)
    thr = None
    if mode:
        thr = S.real()
        S.assume_ge(thr, lo)
        S.assume_ge(hi, thr)
    asked = []

    class BS:
        def assess_bs(self, g):
            r = g >= thr if mode else S.choice(2) == 1
            asked.append((g, r))
            return r
    st, v, it = E.cutting_plane_mod.binary_search(BS(), lo, hi, E.cutting_plane_mod.Options(limit, tol))
    k = 0
    l, u = lo, hi
    while True:
        if k == limit:
            S.check(st == statuses(E)[3], "the limit is reported as undecided")
            break
        if u - l < tol:
            S.check(st == statuses(E)[0], "a narrow enough bracket is success")
            break
        S.check(len(asked) > k, "the oracle is asked in every round")
        S.check_eq(asked[k][0], (l + u) / 2, "the middle of the bracket is asked")
        if asked[k][1]:
            u = (l + u) / 2
        else:
            l = (l + u) / 2
        k += 1
    S.check(len(asked) == k, "nothing is asked after the end")
    S.check(it == k, "the number of rounds returned")
    S.check_eq(v, (l + u) / 2, "the middle of the last bracket is returned")
    if mode:
        S.check_le(l, thr, "the threshold stays above the lower end")
        S.check_le(thr, u, "the threshold stays below the upper end")
        S.check_le(v - thr, (u - l) / 2, "the answer is within half the bracket")
        S.check_le(thr - v, (u - l) / 2, "the answer is within half the bracket")
    S.observe(it, "rounds")


def py_driver_ell(S, E):
    """the drivers on the package's own ellipsoid"""
    mods(E)
    ell = E.ell_mod.Ell.new_with_scalar(S.const(4), S.array([S.real(), S.real()]))

    class Yes:
        def assess_feas(self, xc):
            return None
    raised = False
    try:
        E.cutting_plane_mod.cutting_plane_feas(Yes(), ell, E.cutting_plane_mod.Options(3, S.const(0)))
    except TypeError:
        raised = True
    S.check(not raised, "a driver runs on the package's own ellipsoid")


def symmat(S, n):
    m = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            m[i][j] = m[j][i] = S.real()
    return m


def finite(S, p):
    for x in p:
        S.assume(x == x and x - x == 0)


def py_ell(S, E):
    """n, kind (bias, central, q), form of the depth (number, (b, None), (b0, b1)), number of cuts, deferral off"""
    mods(E)
    n, kind, form, cuts, nodefer = (S.param(i) for i in range(5))
    ok = statuses(E)[0]
    kappa = S.real()
    m0 = symmat(S, n)
    x0 = [S.real() for _ in range(n)]
    arr_m, arr_x = S.array(m0), S.array(x0)
    ell = E.ell_mod.Ell(kappa, arr_m, arr_x, bool(nodefer))
    S.check(ell.ndim == n, "the dimension")
    M, x, kap = m0, x0, kappa
    for c in range(max(cuts, 1)):
        g = [S.real() for _ in range(n)]
        b0, b1 = S.real(), S.real()
        beta = [b0, (b0, None), (b0, b1)][form]
        arr_g = S.array(g)
        st = [ell.update_bias_cut, ell.update_central_cut, ell.update_q][kind]((arr_g, beta))
        Mg = [sum((M[i][j] * g[j] for j in range(n)), S.const(0)) for i in range(n)]
        om = sum((g[i] * Mg[i] for i in range(n)), S.const(0))
        calc = E.calc_mod.EllCalc(n)
        tsq = kap * om
        if form < 2:
            want, par = [lambda: calc.calc_bias_cut(b0, tsq), lambda: calc.calc_central_cut(tsq),
                         lambda: calc.calc_bias_cut_q(b0, tsq)][kind]()
        else:
            want, par = [lambda: calc.calc_parallel_bias_cut(b0, b1, tsq), lambda: calc.calc_parallel_central_cut(b1, tsq),
                         lambda: calc.calc_parallel_q(b0, b1, tsq)][kind]()
        S.check(st == want, "the status is the calculator's")
        S.check_eq(ell.get_tsq(), tsq, "the measure is kappa g'Mg")
        if st != ok:
            for i in range(n):
                S.check_eq(ell.xc[i], x[i], "a refused cut leaves the centre")
                for j in range(n):
                    S.check_eq(ell.mq[i][j], M[i][j], "a refused cut leaves the shape")
            S.check_eq(ell.kappa, kap, "a refused cut leaves the size")
        else:
            finite(S, par)
            rho, sig, dlt = par
            x = [x[i] - rho * Mg[i] / om for i in range(n)]
            M = [[M[i][j] - sig * Mg[i] * Mg[j] / om for j in range(n)] for i in range(n)]
            kap = kap * dlt
            if nodefer:
                M = [[M[i][j] * kap for j in range(n)] for i in range(n)]
                kap = S.const(1)
            for i in range(n):
                S.check_eq(ell.xc[i], x[i], "the centre moves by rho along Mg")
                for j in range(n):
                    S.check_eq(ell.mq[i][j], M[i][j], "the shape loses the rank-one term")
            S.check_eq(ell.kappa, kap, "the size is scaled by delta")
        same_vec(S, arr_g, g, "the caller's gradient is not touched")
    for i in range(n):
        S.check_eq(arr_x[i], x0[i], "the caller's centre is not touched")
        for j in range(n):
            S.check_eq(arr_m[i][j], m0[i][j], "the caller's matrix is not touched")
    y = ell.get_xc()
    y[0] = y[0] + 1
    S.check_eq(ell.xc[0], x[0], "the centre handed out is a copy")
    z = S.array([S.real() for _ in range(n)])
    zz = list(z)
    ell.set_xc(z)
    z[0] = z[0] + 1
    same_vec(S, ell.xc, zz, "the centre set is a copy of the one given")
    S.observe(ell.kappa, "kappa")


def py_ctor(S, E):
    mods(E)
    n, mode = S.param(0), S.param(1)
    Ell = E.ell_mod.Ell
    x = [S.real() for _ in range(n)]
    v = S.real()
    d = [S.real() for _ in range(n)]
    m = symmat(S, n)
    if mode == 0:
        e = Ell.new_with_scalar(v, S.array(x))
        k = v
        want = [[v if i == j else S.const(0) for j in range(n)] for i in range(n)]
    elif mode == 1:
        e = Ell.new(S.array(d), S.array(x))
        k = S.const(1)
        want = [[d[i] if i == j else S.const(0) for j in range(n)] for i in range(n)]
    else:
        e = Ell.new_with_matrix(v, S.array(m), S.array(x))
        k, want = v, m
    same_vec(S, e.xc, x, "the centre as given")
    S.check_eq(e.kappa, k, "the size as given")
    S.check(not e.no_defer_trick, "the scaling is deferred by default")
    for i in range(n):
        for j in range(n):
            S.check_eq(e.mq[i][j], want[i][j], "the shape as given")
    S.observe(e.kappa, "kappa")


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def py_bad(S, E):
    mods(E)
    Ell = E.ell_mod.Ell
    r = [S.real() for _ in range(6)]
    one = S.const(1)
    a2, a3 = S.array(r[:2]), S.array(r[:3])
    m22 = S.array([r[:2], r[2:4]])
    m23 = S.array([r[:3], r[3:6]])
    e = Ell(one, m22, a2)
    c = S.choice(5)
    bad = [lambda: Ell(one, m23, a2), lambda: Ell(one, m22, a3), lambda: Ell(one, a2, a2), lambda: Ell(one, m22, m22),
           lambda: e.set_xc(a3)][c]
    S.check(raises(bad), "mismatched shapes are refused")
    same_vec(S, e.xc, r[:2], "a refused centre changes nothing")
    S.observe(c, "case")


def rotation(S, n):
    """an arbitrary orthogonal matrix up to the signs of its columns (Cayley)"""
    if n == 1:
        return [[S.const(1)]]
    if n == 2:
        t = S.real()
        d = 1 + t * t
        c, s = (1 - t * t) / d, 2 * t / d
        return [[c, -s], [s, c]]
    a, b, c = S.real(), S.real(), S.real()
    d = 1 + a * a + b * b + c * c
    return [[(1 + a * a - b * b - c * c) / d, 2 * (a * b - c) / d, 2 * (a * c + b) / d],
            [2 * (a * b + c) / d, (1 - a * a + b * b - c * c) / d, 2 * (b * c - a) / d],
            [2 * (a * c - b) / d, 2 * (b * c + a) / d, (1 - a * a - b * b + c * c) / d]]


def py_lmi(S, E):
    """size, number of matrices, number of coordinates of the point if different; the constraint matrix at the point queried is an arbitrary symmetric matrix"""
    import ellalgo.oracles.lmi_oracle
    import sys
    lm = sys.modules["ellalgo.oracles.lmi_oracle"]
    n, m = S.param(0), S.param(1)
    q = S.param(2) or m
    V = rotation(S, n)
    lam = [S.real() for _ in range(n)]
    for i in range(n - 1):
        S.assume_gt(lam[i + 1], lam[i])
    A = [[sum((lam[k] * V[i][k] * V[j][k] for k in range(n)), S.const(0)) for j in range(n)] for i in range(n)]
    F = [symmat(S, n) for _ in range(m)]
    x = [S.real() for _ in range(q)]
    y = [S.real() for _ in range(q)]
    c = min(m, q)
    B = [[A[i][j] - sum((x[k] * F[k][i][j] for k in range(c)), S.const(0)) for j in range(n)] for i in range(n)]
    aB, aF = S.array(B), [S.array(f) for f in F]
    oracle = lm.LmiOracle(aB, aF)
    S.eig(A, lam, V)
    for rep in range(2):
        r = oracle.assess_feas(S.array(x))
        if lam[0] >= 0:
            S.check(r is None, "a positive semidefinite matrix is accepted")
        else:
            S.check(r is not None, "a matrix that is not positive semidefinite is refused")
            g, beta = r
            S.check(len(g) == q, "one gradient entry per coordinate")
            S.check_lt(beta, 0, "the depth is negative")
            lhs = beta + sum((g[k] * (y[k] - x[k]) for k in range(q)), S.const(0))
            rhs = S.const(0)
            for i in range(n):
                for j in range(n):
                    e = B[i][j] + sum((y[k] * F[k][i][j] for k in range(c)), S.const(0))
                    rhs = rhs + V[i][0] * e * V[j][0]
            S.check_eq(lhs, rhs, "the answer is the quadratic form of the least eigenvector, at every point")
    for i in range(n):
        for j in range(n):
            S.check_eq(aB[i][j], B[i][j], "the caller's matrices are not touched")
            for k in range(m):
                S.check_eq(aF[k][i][j], F[k][i][j], "the caller's matrices are not touched")
    S.observe(0, "done")


def py_lmi_bad(S, E):
    import ellalgo.oracles.lmi_oracle
    import sys
    lm = sys.modules["ellalgo.oracles.lmi_oracle"]
    r = [S.real() for _ in range(6)]
    m22, m23, m32 = S.array([r[:2], r[2:4]]), S.array([r[:3], r[3:]]), S.array([r[:2], r[2:4], r[4:]])
    c = S.choice(4)
    bad = [lambda: lm.LmiOracle(m23, [m22]), lambda: lm.LmiOracle(m32, []), lambda: lm.LmiOracle(m22, [m22, m23]),
           lambda: lm.LmiOracle(m22, [m32])][c]
    S.check(raises(bad), "mismatched matrices are refused")
    S.observe(c, "case")


def py_profit(S, E):
    import ellalgo.oracles.profit_oracle
    import sys
    pm = sys.modules["ellalgo.oracles.profit_oracle"]
    mode = S.param(0)
    p, a, v0, v1, cap = (S.real() for _ in range(5))
    for t in (p, a, v0, v1, cap):
        S.assume_gt(t, 0)
    e = [S.real(), S.real()]
    x = [S.real(), S.real()]
    gamma = S.real()
    el, vp = S.array(e), S.array([v0, v1])
    oracle = pm.ProfitOracle(p, a, el, vp, cap)
    if mode == 0:
        S.assume_gt(x[0], cap)
        (g, beta), opt = oracle.assess_optim(S.array(x), gamma)
        S.check(not opt, "a point beyond the capacity is not optimal")
        same_vec(S, g, [S.const(1), S.const(0)], "the capacity gradient")
        S.check_eq(beta, cap - x[0], "the capacity depth")
    else:
        S.assume_gt(x[0], 0)
        S.assume_gt(x[1], 0)
        S.assume_ge(cap, x[0])
        if mode == 2:
            # stationary point: prices equal marginal revenue
            pr = a * x[0] ** e[0] * x[1] ** e[1]
            S.assume_eq(v0 * x[0], p * e[0] * pr)
            S.assume_eq(v1 * x[1], p * e[1] * pr)
        (g, beta), opt = oracle.assess_optim(S.array(x), gamma)
        prod = a * x[0] ** e[0] * x[1] ** e[1]
        want = [v0 - p * e[0] * prod / x[0], v1 - p * e[1] * prod / x[1]]
        S.check(len(g) == 2, "the gradient is that of the negative profit")
        for i, v in enumerate((v0, v1)):
            S.check_eq(g[i], want[i], "the gradient is that of the negative profit", 2 * v)
        nn = want[0] * want[0] + want[1] * want[1]
        if mode == 2:
            S.check(opt, "a stationary point is optimal")
        if opt:
            S.check_le(nn, 1.0000001e-12, "only a nearly stationary point is optimal")
            S.check_eq(beta, 0, "no depth at an optimal point")
        else:
            S.check_le(0.9999999e-12, nn, "a nearly stationary point is optimal")
            S.check_lt(beta, 0, "the depth is negative")
    same_vec(S, el, e, "the caller's elasticities are not touched")
    S.observe(0, "done")


def py_calc(S, E):
    """kind: bias, central, q, then the same for two hyperplanes; every dimension"""
    mods(E)
    kind = S.param(0)
    ok, nosoln, noeff, _ = statuses(E)
    n, b0, b1, t = (S.real() for _ in range(4))
    S.assume_ge(n, 2)
    calc = E.calc_mod.EllCalc(n)
    st, par = [lambda: calc.calc_bias_cut(b0, t), lambda: calc.calc_central_cut(t), lambda: calc.calc_bias_cut_q(b0, t),
               lambda: calc.calc_parallel_bias_cut(b0, b1, t), lambda: calc.calc_parallel_central_cut(b1, t),
               lambda: calc.calc_parallel_q(b0, b1, t)][kind]()
    st2, par2 = [lambda: calc.calc_single_or_parallel_bias_cut((b0, None), t),
                 lambda: calc.calc_single_or_parallel_central_cut((b0, None), t),
                 lambda: calc.calc_single_or_parallel_q((b0, None), t),
                 lambda: calc.calc_single_or_parallel_bias_cut((b0, b1), t),
                 lambda: calc.calc_single_or_parallel_central_cut((b0, b1), t),
                 lambda: calc.calc_single_or_parallel_q((b0, b1), t)][kind]()
    if t <= 0:
        want = noeff
    elif kind in (0, 2):
        want = nosoln if b0 >= 0 else noeff if b0 * b0 >= t else ok
    elif kind in (3, 5):
        want = nosoln if b0 * b1 <= 0 else ok
    else:
        want = ok
    S.check(st == want, "the classification of the cut")
    S.check(st2 == want, "the pair form picks the same formula")
    if want != ok:
        same_vec(S, par, [S.const(0), S.const(0), S.const(1)], "a refused cut is the identity")
        same_vec(S, par2, [S.const(0), S.const(0), S.const(1)], "a refused cut is the identity")
    else:
        finite(S, par)
        same_vec(S, par2, par, "the pair form picks the same formula")
        rho, sig, dlt = par
        if kind < 3:
            S.check_lt(0, sig, "a single cut shrinks along the gradient")
            S.check_lt(0, dlt, "a single cut keeps a positive size")
            S.check_lt(dlt, 1, "a single cut scales down")
            if kind == 1:
                S.check_eq(rho, 0, "a central cut stays")
                S.check_eq(sig * (n + 1), 2, "a central cut has sigma 2/(n+1)")
                S.check_eq(dlt * (n + 1) * (n + 1), n * n, "a central cut has delta (n/(n+1))^2")
            else:
                S.check_lt(rho, 0, "the centre moves towards the cut")
                c = S.real()
                S.assume_gt(c, 0)
                st3, par3 = [calc.calc_bias_cut, None, calc.calc_bias_cut_q][kind](b0 * c, t * c * c)
                S.check(st3 == ok, "the units of length do not matter")
                same_vec(S, par3, [rho * c, sig, dlt], "the units of length do not matter")
        elif kind == 4:
            S.check_eq(rho, 0, "a strip symmetric about the centre stays")
    S.observe(0, "done")
