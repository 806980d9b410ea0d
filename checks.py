"""Which harness entries, at which sizes, decide which property."""
from engine.runner import Job as J

N_ALL = "n (dimension) is a symbolic integer >= 2: every dimension"
RE = ("all real-valued inputs (cut depths, gradients, centres, shapes) are unconstrained reals up to the stated "
      "well-formedness")

SINGLE = (0, 1, 2, 9, 10, 11)
PAR = (3, 4, 5, 6, 7, 8)
ALLK = (0, 1, 2, 3, 4, 5)
SPACEK = (0, 1, 2, 3, 4, 5, 9, 10, 11)


def contain(kinds):
    return [J("h_calc_contain", k, m) for k in kinds for m in (0, 1)]


def space(what, kinds, flavours=(0, 1, 2), dims=(2, 3)):
    return [J("h_space_cut", f, n, k, what) for f in flavours for n in dims for k in kinds]


PROPS = {}

PROPS["P01"] = dict(
    quick=contain(SINGLE) + space(0, SINGLE) + space(0, SINGLE, (0, 1), (5,)) + space(0, SINGLE, (3,), (2, 4))
    + [J("h_calc_flat", k, 2) for k in (0, 2, 9, 11)],
    thorough=space(0, SINGLE, (0, 1), (4, 6, 8)) + space(0, SINGLE, (3,), (3, 5)),
    code=["ell_calc.rs EllCalc/EllCalcCore single-cut formulas", "ell.rs", "ell_stable.rs",
          "cutting_plane.rs SingleCut/ParallelCut dispatch"],
    bounds="formulas: " + N_ALL + "; spaces: n = 2,3,5 (thorough 4,6,8; factored 2,3,4, thorough 5), one update from an arbitrary "
           "ellipsoid, hence by induction any number of updates; " + RE,
    assumptions=["the ellipsoid is non-degenerate along the cut gradient (g'Pg > 0)",
                 "factored representation, n >= 3, arbitrary shape: no entry of the inverse factor vanishes (diagonal shapes are covered separately)"])

PROPS["P02"] = dict(
    quick=contain(PAR) + space(0, (3, 4, 5)) + space(0, (3, 4, 5), (0, 1), (5,)) + space(0, (3, 4, 5), (3,), (3,))
    + [J("h_calc_flat", k, w) for k in (3, 5, 6, 8) for w in (0, 1, 2)] + [J("h_calc_flat", k, 0) for k in (4, 7)],
    thorough=space(0, (3, 4, 5), (0, 1), (4, 6)) + [J("h_space_cut", 3, 2, k, 0, budget=900) for k in (3, 4, 5)],
    code=["ell_calc.rs EllCalc/EllCalcCore parallel-cut formulas", "ell.rs", "ell_stable.rs"],
    bounds="formulas: " + N_ALL + "; spaces: n = 2,3,5 (thorough 4,6; factored 2,3), one update from an arbitrary ellipsoid, hence "
           "by induction any number of updates; " + RE,
    assumptions=["the ellipsoid is non-degenerate along the cut gradient (g'Pg > 0)",
                 "factored representation, n = 3, arbitrary shape: no entry of the inverse factor vanishes (diagonal shapes are covered separately)"])

PROPS["P03"] = dict(
    quick=[J("h_calc_volume", k, 0) for k in range(12)] + [J("h_calc_volume", k, n) for k in range(6) for n in (2, 3, 5)]
    + space(1, SPACEK) + space(1, SPACEK, (0, 1), (5,)) + space(1, SINGLE, (3,), (2, 4)),
    thorough=[J("h_calc_volume", k, n) for k in range(6) for n in range(4, 21)] + space(1, SPACEK, (0, 1), (4,)),
    code=["ell_calc.rs", "ell.rs", "ell_stable.rs"],
    bounds="formulas: " + N_ALL + " (through a calculus lemma) and each n in 2,3,5 (thorough 2..20) directly; spaces n = 2,3,5 "
           "(thorough 4; factored 2,3,4)",
    assumptions=["the monotonicity lemma used for symbolic n is the derivative sign, itself discharged by the solver"])

PROPS["P04"] = dict(
    quick=[J("h_calc_status", k) for k in range(12)] + [J("h_space_status", f, n, k) for f in (0, 1, 2) for n in (2, 3)
                                                        for k in SPACEK]
    + [J("h_space_status", f, 5, k) for f in (0, 1) for k in SPACEK] + [J("h_space_status", 3, n, k) for n in (2, 4) for k in SINGLE]
    + [J("h_stable_big", 9, k, 5, 4, 1, m) for k in (0, 2, 4) for m in (4, 5, 6)] + [J("h_stable_big", 9, k, 5, 4, 1, m) for k in (3, 5) for m in (4, 5)],
    thorough=[J("h_space_status", f, 4, k) for f in (0, 1) for k in SPACEK],
    code=["ell_calc.rs", "ell.rs", "ell_stable.rs"],
    bounds="formulas: " + N_ALL + "; spaces n = 2,3,5 (thorough 4; factored 2,3,4); the refused cut is followed by one further cut; also n = 9 "
           "from a fixed dense shape with one arbitrary gradient component",
    assumptions=[])

PROPS["P05"] = dict(
    quick=space(2, SPACEK) + space(2, SPACEK, (0, 1), (5,)) + space(2, (0, 1, 4), (0,), (6,)) + space(2, (1,), (0, 1), (9, 13)) + space(2, SINGLE, (3,), (2, 4, 5))
    + space(2, (3, 4, 5), (3,), (3,)) + [J("h_ctor", n) for n in (1, 2, 3)] + [J("h_covariant", 3, n, k) for n in (2, 4) for k in (0, 1, 2)]
    + [J("h_covariant", f, n, k) for f in (0, 1, 2) for n in (2, 3) for k in ALLK]
    + [J("h_defer", 2, 1, 3), J("h_defer", 2, 2, 1, 0), J("h_defer", 3, 2, 0, 1), J("h_defer", 2, 2, 0, 0),
       J("h_defer", 2, 2, 3, 0)]
    + [J("h_history", f, 2, 20, k, 5) for f in (0, 1, 3) for k in (0, 1, 2, 3)] + [J("h_history", f, 3, 12, k, 5) for f in (0, 1, 3) for k in (0, 2)]
    + [J("h_history", 0, 2, 100, 0, 5)] + [J("h_history", f, 9, 3, 1, 5) for f in (0, 3)]
    + [J("h_stable_big", 9, k, 6, c, 1, m) for k in (0, 1, 2) for m in (1, 2, 3) for c in (0, 8)]
    + [J("h_stable_big", 9, k, 6, 3, 1, m) for k in (3, 4, 5) for m in (1, 2)] + [J("h_stable_big", 16, k, 6, 7, 1, m) for k in (0, 1) for m in (1, 2, 3)],
    thorough=space(2, SPACEK, (0, 1), (4, 6, 8)) + space(2, SINGLE, (3,), (6,)) + [J("h_ctor", 4)] + [J("h_defer", 2, 2, 5, 0, budget=600), J("h_defer", 2, 2, 0, 3, budget=900)],
    code=["ell.rs", "ell_stable.rs", "cutting_plane.rs"],
    bounds="n = 2,3,5,6, central cuts 9 and 13 (thorough 4,8; factored 2..5, thorough 6); one update from an arbitrary state, hence by induction any number; "
           "two updates for the deferred scaling; also explicit histories of 24, 40 and 200 cuts in fixed directions (n = 2, 3; six cuts for n = 9) before an arbitrary one; n = 9 and 16 from a fixed dense shape "
           "with one arbitrary gradient component",
    assumptions=["factored representation, n >= 3, arbitrary shape: no entry of the inverse factor vanishes (diagonal shapes are covered separately)",
                 "two-update histories exclude inputs on which a denominator vanishes by coincidence"])

PROPS["P06"] = dict(
    quick=[J("h_stable_step", n, k) for n in (2, 3, 4, 5) for k in SINGLE] + [J("h_stable_step", n, k) for n in (2, 3) for k in (3, 4, 5)]
    + [J("h_stable_step", 6, k) for k in (0, 1)]
    + [J("h_stable_equiv", n, 1, 1, k) for n in (2, 3) for k in ALLK]
    + [J("h_stable_equiv", 4, 1, 1, k) for k in (0, 1)]
    + [J("h_stable_equiv", 2, 1, 2, a, b) for a in (0, 1) for b in (0, 1)]
    + [J("h_stable_equiv", 2, 1, 2, 1, 3), J("h_stable_equiv", 2, 1, 2, 4, 1), J("h_stable_equiv", 3, 1, 2, 1, 1),
       J("h_stable_equiv", 2, 0, 2, 2, 1), J("h_stable_equiv", 2, 1, 2, 0, 3), J("h_stable_equiv", 2, 1, 2, 3, 1),
       J("h_stable_equiv", 2, 1, 2, 5, 1), J("h_stable_equiv", 3, 1, 3, 1, 1, 1)]
    + [J("h_stable_big", 9, k, 7, c, 1, 0) for k in (0, 1, 2, 4, 9, 10, 11) for c in (0, 8)]
    + [J("h_stable_big", 12, k, 3, 11, 1, 0) for k in (0, 1, 2)],
    thorough=[J("h_stable_equiv", 4, 1, 1, k, budget=900) for k in (2, 3, 4, 5)]
    + [J("h_stable_equiv", 3, 1, 2, a, b, budget=1800) for a in (0, 1) for b in (0, 1)]
    + [J("h_stable_equiv", 4, 1, 2, 1, 1, budget=1800)],
    code=["ell_stable.rs", "ell.rs"],
    bounds="one cut from the same arbitrary ellipsoid, n = 2..6 (pairs of cuts: 2,3), hence by induction histories of any length; also "
           "explicit histories of 1 to 3 cuts from an arbitrary diagonal shape, n = 2,3,4, and one cut for n = 9 and 12 from a fixed dense "
           "shape with one arbitrary gradient component",
    assumptions=["arbitrary shape, n >= 3: no entry of the inverse factor vanishes (diagonal shapes are covered separately)",
                 "histories exclude inputs on which a denominator vanishes by coincidence (one history covers those too)"])

PROPS["P07"] = dict(
    quick=[J("h_calc_degenerate", i) for i in range(16)],
    code=["ell_calc.rs"],
    bounds=N_ALL, assumptions=[])

PROPS["P08"] = dict(
    quick=[J("h_feas", k) for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 40, 120)],
    thorough=[J("h_feas", k, budget=1200) for k in (16, 25, 80, 250)],
    code=["cutting_plane.rs cutting_plane_feas"],
    bounds="iteration limit 0..8, 40 and 120 (thorough 16, 25, 80, 250); the oracle and the search space are arbitrary (every answer and "
           "status is symbolic)",
    assumptions=["tolerance is an arbitrary real"])
PROPS["P09"] = dict(
    quick=[J("h_optim", k) for k in range(6)] + [J("h_optim", 12, c) for c in (2, 12)] + [J("h_optim", 24, c) for c in (1, 11, 81)]
    + [J("h_optim", 120, c) for c in (10, 80, 1000)],
    thorough=[J("h_optim", k, budget=1200) for k in (6, 7)] + [J("h_optim", 16, c, budget=1200) for c in (2, 12, 82, 92)]
    + [J("h_optim", 60, c, budget=1200) for c in (1, 11)],
    code=["cutting_plane.rs cutting_plane_optim"],
    bounds="iteration limit 0..5 (thorough 7) with an entirely arbitrary oracle and search space; limit 12 and 24 (thorough 16, 60) "
           "with an environment that departs at most twice, resp. once, from 'never improves', 'always improves' or 'every other "
           "round improves' and may end the run in any round; limit 120 with no departure", assumptions=[])
PROPS["P10"] = dict(
    quick=[J("h_optim_q", k) for k in range(5)] + [J("h_optim_q", 10, c) for c in (22, 62)]
    + [J("h_optim_q", 20, c) for c in (21, 31, 61, 71, 101, 141)]
    + [J("h_optim_q", 100, c) for c in (10, 20, 30, 60, 70, 80, 1000)],
    thorough=[J("h_optim_q", 5, budget=1800)] + [J("h_optim_q", 14, c, budget=1800) for c in (22, 32, 62, 72, 102, 142)],
    code=["cutting_plane.rs cutting_plane_optim_q"],
    bounds="iteration limit 0..4 (thorough 5) with an entirely arbitrary oracle and search space; limit 10 and 20 (thorough 14) with "
           "an environment that departs at most twice, resp. once, from a fixed pattern of improvements, ineffective cuts and "
           "offered alternatives and may refuse a cut in any round; limit 100 with such an environment that never departs",
    assumptions=["the search space never answers with the status reserved for 'not yet known'"])
PROPS["P11"] = dict(
    quick=[J("h_bsearch", k, m) for k in (0, 1, 2, 3, 5, 7) for m in (0, 1)]
    + [J("h_bsearch", 16, 0, c) for c in (2, 12, 82)]
    + [J("h_bsearch", 100, 0, c) for c in (10, 80, 1000)] + [J("h_bsearch_bad")],
    thorough=[J("h_bsearch", k, m, budget=1200) for k in (8, 9) for m in (0, 1)]
    + [J("h_bsearch", 40, 0, c, budget=1200) for c in (1, 2, 11, 81)],
    code=["cutting_plane.rs bsearch"],
    bounds="iteration limit 0..3, 5, 7 (thorough 9) with arbitrary oracle answers and interval; limit 16 (thorough 40) with answers "
           "that depart at most twice from a constant or alternating pattern; limit 100 with such a pattern itself", assumptions=[])
PROPS["P12"] = dict(
    quick=[J("h_adaptor", c, k) for c in (1, 2) for k in (0, 1, 2)] + [J("h_adaptor", 1, 60), J("h_adaptor", 2, 6), J("h_adaptor", 3, 1)],
    thorough=[J("h_adaptor", 3, 2, budget=1200), J("h_adaptor", 4, 1, budget=1200)],
    code=["cutting_plane.rs BSearchAdaptor"],
    bounds="one to three (thorough four) queries, inner iteration limit 0..2, 6 and 60; arbitrary oracle and search space", assumptions=[])

WIT = "the matrix is accessed through a real closure or a real matrix; every entry is an unconstrained real"
PROPS["P13"] = dict(
    quick=[J("h_ldlt", n, 0, z) for n in (1, 2, 3, 4) for z in (0, 1)]
    + [J("h_ldlt_big", n, e, 0) for n in (5, 6, 8, 9) for e in range(n + 1)]
    + [J("h_ldlt_big", n, e, 0, 1) for n, e in ((12, 0), (12, 11), (12, 12), (16, 0), (16, 16), (17, 12))],
    thorough=[J("h_ldlt", 5, 0, z, budget=1200) for z in (0, 1)] + [J("h_ldlt_big", n, e, 0) for n in (7, 10, 12) for e in range(n + 1)],
    code=["oracles/ldlt_mgr.rs factor / factorize / is_spd"],
    bounds="every symmetric matrix of size 1..4 (thorough 5) entrywise, and of size 5, 6, 8, 9 (thorough 7, 10, 12) parametrised by the "
           "factors of its first block that is not positive definite; sizes 12, 16, 17 with part of the factor fixed",
    assumptions=["a symmetric matrix whose leading minors are positive has factors L D L' (textbook fact used to parametrise sizes above 4)"])
PROPS["P14"] = dict(
    quick=[J("h_ldlt", n, 1, z) for n in (1, 2, 3, 4) for z in (0, 1)] + [J("h_ldlt_reuse", n, v) for n in (2, 3) for v in (0, 1)]
    + [J("h_ldlt_big", n, e, 1) for n in (5, 6, 8) for e in range(1, n + 1)]
    + [J("h_ldlt_big", n, e, 1, 1) for n, e in ((9, 9), (10, 10), (12, 11), (13, 13), (16, 9))]
    + [J("h_ldlt_reuse_big", n, a, b) for n in (4, 5) for a in range(n + 1) for b in range(1, n + 1)],
    thorough=[J("h_ldlt", 5, 1, z, budget=1800) for z in (0, 1)] + [J("h_ldlt_big", n, e, 1) for n in (7, 9) for e in range(1, n + 1)],
    code=["oracles/ldlt_mgr.rs witness / sym_quad"],
    bounds="every symmetric matrix of size 1..4 (thorough 5) entrywise, and of size 5, 6, 8 (thorough 7, 9) parametrised by the "
           "factors of its first block that is not positive definite (sizes 9, 10, 12, 13, 16 with part of the factor fixed); also after an arbitrary earlier matrix (sizes 2..5)",
    assumptions=["a symmetric matrix whose leading minors are positive has factors L D L' (textbook fact used to parametrise sizes above 4)"])
PROPS["P15"] = dict(
    quick=[J("h_ldlt", n, 2, z) for n in (1, 2, 3, 4) for z in (0, 1)]
    + [J("h_ldlt_reuse", n, v) for n in (2, 3) for v in (0, 1, 2, 3)]
    + [J("h_ldlt_big", n, 0, 2) for n in (5, 6, 7, 8, 10)] + [J("h_ldlt_big", n, 0, 2, 1) for n in (13, 16)]
    + [J("h_ldlt_reuse_big", n, a, 0) for n in (4, 5, 6) for a in range(n + 1)]
    + [J("h_ldlt_semi", n, m) for n in (2, 3) for m in (0, 1, 2)]
    + [J("h_ldlt_semi_big", k, m, e) for k, m in ((0, 4), (1, 3), (2, 2), (3, 3), (1, 5), (4, 2)) for e in range(m + 1)],
    thorough=[J("h_ldlt_reuse", 4, v, budget=1200) for v in (0, 1, 2, 3)] + [J("h_ldlt_big", n, 0, 2) for n in (9, 12, 16)] + [J("h_ldlt_semi", 4, m, budget=1200) for m in (0, 1, 2)],
    code=["oracles/ldlt_mgr.rs sqrt / factor_with_allow_semidefinite"],
    bounds="every symmetric matrix of size 1..4 entrywise and every positive definite one of size 5..8, 10 (thorough 9, 12, 16; 13, 16 with part of the factor fixed) through "
           "its factors; histories of two factorisations of sizes 2..6; the semidefinite variant for sizes 2,3 (thorough 4) entrywise and up to 6 with at most one zero pivot",
    assumptions=["a symmetric matrix whose leading minors are positive has factors L D L' (textbook fact used to parametrise sizes above 4)"])
PROPS["P16"] = dict(
    quick=[J("h_lmi", w, nd, n) for w in (0, 1, 2) for nd in (2, 3) for n in (1, 2)]
    + [J("h_lmi_big", w, nd, n, e) for w in (0, 1, 2) for nd, n in ((4, 2), (5, 3), (6, 1)) for e in range(nd + 1)]
    + [J("h_lmi_big", w, 9, 2, e) for w in (0, 1, 2) for e in (0, 5)]
    + [J("h_lmi_big", w, *s) for w in (0, 1, 2) for s in ((10, 2, 10, 1), (12, 2, 9, 1), (12, 1, 0, 1), (3, 12, 2), (2, 17, 0))]
    + [J("h_lmi_seq", w, nd, a, b) for w in (0, 1, 2) for nd in (2, 4) for a in range(nd + 1) for b in range(nd + 1)]
    + [J("h_lmi_repeat", w, 2, n) for w in (0, 1, 2) for n in (1, 2)] + [J("h_lmi_same", nd, 2) for nd in (2, 3)],
    thorough=[J("h_lmi", w, 4, 2, budget=1200) for w in (0, 1, 2)] + [J("h_lmi", w, 3, 3, budget=1200) for w in (0, 1, 2)],
    code=["oracles/lmi_oracle.rs", "oracles/lmi_old_oracle.rs", "oracles/lmi0_oracle.rs", "oracles/ldlt_mgr.rs"],
    bounds="matrices of size 2,3 (thorough 4) entrywise and 4, 5, 6, 9 through their factors (10, 12 with part of the factor fixed), 1 to 3, 12 and 17 unknowns; one query from a fresh "
           "oracle, and further queries after arbitrary earlier ones (sizes 2, 4)", assumptions=["coefficient matrices are symmetric"])
PROPS["P17"] = dict(
    quick=[J("h_lowpass", *s, o, w) for s in ((1, 1, 1, 1), (2, 2, 1, 2), (2, 1, 2, 2)) for o in (0, 1) for w in (0, 1)]
    + [J("h_lowpass", 2, 6, 4, 6, 1, 0, 1), J("h_lowpass", 3, 5, 3, 5, 0, 0, 1)]
    + [J("h_lowpass_new", nd, e) for nd in (1, 2, 4) for e in range(4)],
    thorough=[J("h_lowpass", *s, o, w, budget=1800) for s in ((2, 2, 2, 2), (3, 2, 1, 2), (2, 3, 1, 2)) for o in (0, 1)
              for w in (0, 1)] + [J("h_lowpass_new", nd, e) for nd in (8, 16) for e in range(4)],
    code=["oracles/lowpass_oracle.rs"],
    bounds="dimension 1,2 (thorough 3), 1 or 2 (thorough 3) frequencies per band with arbitrary real responses and levels, every "
           "scan position; 16 and 13 frequencies in dimension 2 and 3 with fixed responses but one, arbitrary designs and levels; the discretisation itself for dimension 1,2,4 (thorough 8,16) and four pairs of band edges",
    assumptions=["every band holds at least one frequency"])
PROPS["P18"] = dict(
    quick=[J("h_profit", h, w) for h in (0, 1) for w in (0, 1, 2)] + [J("h_profit_rb", 0, w) for w in (0, 1, 2)]
    + [J("h_profit_rb", 1, 1)],
    thorough=[J("h_profit", 2, w, budget=1200) for w in (0, 1, 2)] + [J("h_profit_rb", 1, w, budget=1200) for w in (0, 2)],
    code=["oracles/profit_oracle.rs ProfitOracle, ProfitRbOracle"],
    bounds="one query after 0 or 1 (thorough 2) arbitrary earlier ones; every real parameter, point and non-negative target",
    assumptions=["prices, scale, limit and costs are positive, also in the worst case; target >= 0",
                 "exp and ln are characterised by monotonicity, positivity, inversion and their tangents"])
PROPS["P19"] = dict(
    quick=[J("h_profit_q", 0, 1, w) for w in (0, 1)] + [J("h_profit_q", 0, 0, w) for w in (0, 1)]
    + [J("h_profit_q", 1, 1, w) for w in (0, 1)] + [J("h_profit_q", 0, 0, 9)],
    thorough=[J("h_profit_q", 1, 0, w, budget=1800) for w in (0, 1)],
    code=["oracles/profit_oracle.rs ProfitOracleQ"],
    bounds="one query, or a retry after an arbitrary first query (thorough: a fresh query after one)",
    assumptions=["prices, scale, limit and costs are positive; target >= 0",
                 "exp and ln are characterised by monotonicity, positivity, inversion and their tangents"])
PROPS["P20"] = dict(
    quick=[J("h_quasicvx", h, w) for h in (0, 1, 2) for w in (0, 1)],
    thorough=[J("h_quasicvx", h, w, budget=1200) for h in (3, 4) for w in (0, 1)],
    code=["quasicvx.rs"],
    bounds="one query after 0..2 (thorough 4) arbitrary earlier ones; every real point, every target >= 0",
    assumptions=["exp is characterised by monotonicity, positivity and its tangents"])
PROPS["P21"] = dict(
    quick=[J("h_svm", m, n, 0, h) for m, n in ((1, 1), (2, 1), (2, 2), (3, 2)) for h in (0, 1)] + [J("h_svm", 2, 1, 1, 0)]
    + [J("h_svm", 8, 3, 0, 0, 1), J("h_svm", 12, 5, 0, 0, 1)],
    thorough=[J("h_svm", m, n, 0, h, budget=1200) for m, n in ((3, 3), (4, 2)) for h in (0, 1)],
    code=["oracles/svm_oracle.rs"],
    bounds="1..3 (thorough 4) samples, 1..2 (thorough 3) features, every real data set and weight vector, labels +-1; 8 and 12 samples with "
           "3 and 5 features, one sample and one weight unknown",
    assumptions=[])
PROPS["P22"] = dict(
    quick=[J("h_maxcut", n, 0) for n in (1, 2, 3, 4)] + [J("h_maxcut", n, 1) for n in (2, 3)] + [J("h_maxcut_bad", i) for i in range(3)]
    + [J("h_maxcut", 8, 0, 1), J("h_maxcut", 12, 1, 1)],
    thorough=[J("h_maxcut", 5, 0, budget=1200), J("h_maxcut", 4, 1, budget=1800), J("h_maxcut", 3, 2, budget=1800)],
    code=["oracles/maxcut_oracle.rs"],
    bounds="1..4 (thorough 5) vertices, every symmetric real weight matrix, every point; 0 or 1 earlier queries; "
           "8 and 12 vertices with two coordinates of the point unknown",
    assumptions=[])
PROPS["P23"] = dict(
    quick=[J("h_arr", r, c) for r, c in ((0, 0), (1, 0), (3, 0), (4, 0), (1, 1), (2, 2), (2, 3), (3, 2))]
    + [J("h_arr_prod", r, c) for r, c in ((1, 1), (2, 2), (2, 3), (3, 2))] + [J("h_arr_rank1", n) for n in (1, 2, 3, 4)]
    + [J("h_arr", 6, 0), J("h_arr", 7, 0), J("h_arr_prod", 4, 4), J("h_arr_prod", 2, 6), J("h_arr_prod", 6, 2), J("h_arr_rank1", 7)]
    + [J("h_arr_fun", r, c) for r, c in ((0, 0), (1, 0), (3, 0), (2, 3), (8, 0))]
    + [J("h_arr", r, c, 1) for r, c in ((12, 0), (13, 0), (17, 0), (5, 4), (8, 8))]
    + [J("h_arr_prod", r, c) for r, c in ((8, 8), (3, 9), (11, 2), (1, 13), (2, 17), (17, 2))] + [J("h_arr_rank1", n) for n in (9, 12)]
    + [J("h_arr_bad", op, 2, 3) for op in range(14)] + [J("h_arr_bad", op, 3, 2) for op in range(14)]
    + [J("h_arr_bad", op, 2, 2) for op in range(14, 24)],
    thorough=[J("h_arr", r, c, budget=1200) for r, c in ((3, 3), (4, 2), (6, 0), (5, 0))] + [J("h_arr_prod", 3, 3), J("h_arr_prod", 4, 4)]
    + [J("h_arr_rank1", n) for n in (5, 6)],
    code=["arr.rs"],
    bounds="vectors of length 0..7 (not 2, 5), 12, 13 and 17, matrices up to 3x2 / 2x3 (thorough 4x4), 5x4 and 8x8 (absolute values: up to 7 entries), products up to 8x8, 3x9, 11x2 and 2x17, every real entry; operands "
           "of mismatched size 2 and 3 in both orders, indices just outside and far outside the array", assumptions=[])
PROPS["P25"] = dict(
    quick=[J("h_cg", n, k, s, w) for n, k in ((3, 1), (3, 2), (3, 3), (4, 3), (4, 4)) for s in (0, 1) for w in (4, 5)]
    + [J("h_cg", 5, k, s, 5) for k in (3, 5) for s in (0, 1)] + [J("h_cg", 9, 3, 0, 5), J("h_cg", 9, 4, 1, 4)]
    + [J("h_cg", 2, k, s, 0) for k in (0, 1, 2) for s in (0, 1)] + [J("h_cg", 2, k, s, 1) for k in (2, 3) for s in (0, 1)]
    + [J("h_cg", 3, 2, s, 3) for s in (0, 1)] + [J("h_cg", 12, 12, 0, 6), J("h_cg", 16, 18, 1, 6)],
    thorough=[J("h_cg", 3, 3, 1, 3, budget=1800), J("h_cg", 5, 5, 0, 4, budget=1800), J("h_cg", 6, 6, 1, 5, budget=1800), J("h_cg", 3, 3, 0, 3, budget=1800),
              J("h_cg", 20, 20, 0, 6, budget=1200), J("h_cg", 24, 26, 1, 6, budget=1200)],
    code=["conjugate_gradient.rs"],
    bounds="2 unknowns with an arbitrary matrix and iteration limit 0..3; 3 unknowns with fixed matrices and arbitrary right-hand "
           "sides; 3 to 5 and 9 unknowns with one entry of the matrix or of the initial residual unknown, limit 1..5, arbitrary start; "
           "tolerance an arbitrary non-negative real; 12 and 16 unknowns (thorough 20, 24) with a fixed system, limit 12 and 18, arbitrary "
           "tolerance and start", assumptions=[])
PROPS["P26"] = dict(
    quick=[J("h_power", v, 2, 0, 0) for v in (1, 2, 3, 4)] + [J("h_power", v, 2, 1, m) for v in (1, 2, 3, 4) for m in (1, 2)]
    + [J("h_power", v, 2, 1, 0) for v in (1, 2, 3, 4)] + [J("h_power", v, 2, 2, m) for v in (2, 4) for m in (1, 2)]
    + [J("h_power", v, 3, 1, 1) for v in (1, 2, 4)]
    + [J("h_power", v, n, k, 3) for v in (2, 3, 4) for n, k in ((2, 6), (4, 3), (3, 4))] + [J("h_power", 1, n, 2, 3) for n in (2, 3)]
    + [J("h_power", v, 9, k, 3) for v, k in ((2, 2), (3, 2), (4, 1))]
    + [J("h_power", v, n, k, 4) for v in (2, 3, 4) for n, k in ((2, 16), (4, 14), (16, 8))] + [J("h_power", 1, 3, 4, 4)],
    thorough=[J("h_power", v, n, k, 3, budget=1200) for v in (1, 2, 3, 4) for n, k in ((2, 3), (5, 4), (3, 5))] + [J("h_power", v, 2, 2, 2, budget=1200) for v in (1, 3)] + [J("h_power", 3, 3, 1, 1, budget=1800)],
    code=["power_iteration.rs"],
    bounds="2 unknowns with an arbitrary matrix, start and tolerance for up to 1 iteration, up to 2 with matrix or start fixed; 3 "
           "unknowns, 1 iteration from a fixed start; 2 to 4 and 9 unknowns, up to 6 iterations (9 unknowns: 1 or 2; 2 for the first variant) with a fixed matrix "
           "and one unknown entry of the start; 2, 4 and 16 unknowns, up to 16 iterations (first variant: 3 unknowns, 4), with only the "
           "tolerance unknown", assumptions=[])
PROPS["P27"] = dict(
    quick=[J("py_feas", k, d) for k in (0, 1, 2, 4) for d in (0, 1)] + [J("py_optim", k, d) for k in (0, 1, 2, 4) for d in (0, 1)]
    + [J("py_feas", 40, 0), J("py_optim", 40, 0), J("py_default")]
    + [J("py_bsearch", k, m) for k in (0, 1, 3, 5) for m in (0, 1)] + [J("py_driver_ell")],
    thorough=[J("py_feas", 120, 0), J("py_optim", 120, 0), J("py_bsearch", 7, 0), J("py_bsearch", 7, 1)],
    code=["python_ai/ellalgo/cutting_plane.py"],
    bounds="iteration limit 0, 1, 2, 4, 40 (thorough 120) with an entirely arbitrary oracle, search space and tolerance; binary search limit "
           "0, 1, 3, 5 (thorough 7), any oracle and any monotone oracle; the defaults at their documented values",
    assumptions=["the search space offers the methods of the documented protocol"])
PROPS["P28"] = dict(
    quick=[J("py_calc", k) for k in range(6)] + [J("py_ctor", n, m) for n in (2, 3) for m in range(3)] + [J("py_bad")]
    + [J("py_ell", n, k, f, 1, d) for n in (2, 3) for k in range(3) for f in range(3) for d in (0, 1)]
    + [J("py_ell", 2, 0, 0, 2, 0), J("py_ell", 2, 0, 1, 2, 1)],
    thorough=[J("py_ell", n, k, f, 1, d) for n in (4, 5) for k in range(3) for f in range(3) for d in (0, 1)],
    code=["python_ai/ellalgo/ell.py", "python_ai/ellalgo/ell_calc.py"],
    bounds="classification and calculator: every dimension (symbolic n >= 2), depth and measure; ellipsoid: n = 2, 3 (thorough 4, 5), one cut "
           "from an arbitrary state (two cuts for some forms); constructors n = 2, 3",
    assumptions=["parameters that come out infinite or NaN (a vanishing denominator of the formulas) are outside"])
PROPS["P29"] = dict(
    quick=[J("py_lmi", n, m) for n in (1, 2, 3) for m in (1, 2)] + [J("py_lmi", 2, 1, 2), J("py_lmi", 2, 2, 1), J("py_lmi_bad")] + [J("py_profit", m) for m in (0, 1, 2)],
    thorough=[J("py_lmi", 3, 4)],
    code=["python_ai/ellalgo/oracles/lmi_oracle.py", "python_ai/ellalgo/oracles/profit_oracle.py"],
    bounds="matrices of size 1..3 with 1 or 2 (thorough 4) unknowns, every real entry and point, asked twice, points with fewer or more coordinates "
           "than matrices; profit: every positive parameter, elasticity and target; points beyond the capacity, or positive ones within it",
    assumptions=["numpy's eigendecomposition returns ascending eigenvalues with orthonormal eigenvectors; eigenvalues distinct",
                 "exp and ln are characterised by monotonicity, positivity, inversion and their tangents"])
