"""Writes properties.jsonl and MANIFEST.json from one table.  Run by hand: python3 meta.py"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = ("symbolic execution of rustc's LLVM IR of the real code (regenerated from /repo on every run) with exact real arithmetic; "
        "every branch and assertion decided by SMT (z3 / cvc5, nonlinear real arithmetic); counterexamples replayed natively")
PYTECH = ("symbolic execution of the real Python source (loaded from /repo on every run, numbers replaced by exact symbolic reals); every "
          "branch and assertion decided by SMT (z3 / cvc5, nonlinear real arithmetic); counterexamples replayed natively")

P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                  observe=observe))


CP, EL, ES, EC = "src/cutting_plane.rs", "src/ell.rs", "src/ell_stable.rs", "src/ell_calc.rs"
LD = "src/oracles/ldlt_mgr.rs"
REAL = "Reals instead of doubles (NaN and infinities included as values); rounding and overflow are outside."

prop("P01", "A single cut never discards a point it was told to keep",
     "After an accepted single cut (central, with a depth, or the discrete kind), every point of the old ellipsoid that lies on the kept "
     "side of the cut lies in the new ellipsoid. This holds for both ellipsoid representations, whatever the centre, shape, gradient and "
     "dimension, and for every depth from the shallowest one at which the update still shrinks the ellipsoid up to the tangent one.",
     ["inputs", "configurations"], "all ellipsoids, gradients, cut depths, kept points; every dimension for the formulas, 2-5 for the spaces",
     "The tests compare the update with a handful of recorded numbers (mostly n = 4, unit gradients); they never ask whether a kept "
     "point survives, which is a claim about every point and every depth.",
     [EC, EL, ES, CP], [("closed-form cut formulas", EC), ("rank-one update of centre and shape", EL + ", " + ES)],
     "Complete for the update formulas (symbolic dimension, all depths); spaces at n = 2,3 (thorough 4) from an arbitrary state. " + REAL)
prop("P02", "A pair of parallel cuts never discards a point between them",
     "After an accepted parallel cut (central, with depths, or the discrete kind; with or without its second bound), every point of the old "
     "ellipsoid that satisfies both bounds lies in the new ellipsoid. This holds for both ellipsoid representations, whatever the centre, shape and gradient, and for "
     "every pair of depths at which the update shrinks the ellipsoid (the discrete kind: every pair).",
     ["inputs", "configurations"], "all ellipsoids, gradients, pairs of depths, kept points",
     "Recorded numbers for a few depth pairs; the case split (which bound binds, which fallback is taken) depends on the pair of depths.",
     [EC, EL, ES], [("parallel-cut formulas and their fallbacks", EC), ("dispatch on the optional second bound", EC)],
     "Complete for the update formulas (symbolic dimension); spaces at n = 2,3 (thorough 4). " + REAL)
prop("P03", "An accepted cut never enlarges the ellipsoid",
     "Every accepted cut leaves the ellipsoid's volume no larger than before, and the shape stays symmetric positive definite; a cut that is not "
     "accepted leaves the volume as it was. This holds for single, parallel and discrete cuts in both representations.",
     ["inputs", "configurations"], "all accepted cuts of all ellipsoids",
     "Progress of the method rests on it; tests only see the final iteration counts of a few problems.",
     [EC, EL, ES], [("dilation and shrink factors", EC), ("shape scaling", EL + ", " + ES)],
     "Formulas for every dimension (by a derivative-sign lemma) and directly for n = 2,3,5 (thorough 2..20); spaces n = 2,3 (thorough 4). " + REAL)
prop("P04", "Cut status is exact, and a refused cut changes nothing",
     "A discrete cut is reported as having no solution exactly when its kept region misses the ellipsoid or its bounds are crossed, and as having "
     "no effect exactly when it is too shallow for the update to shrink the ellipsoid; every other one is successful. A plain cut that is not too "
     "shallow to shrink the ellipsoid is successful or without solution by the same rule. A cut that is not successful leaves centre, shape and "
     "all later behaviour untouched.",
     ["inputs", "histories"], "all depths including the tangent ones; one further arbitrary cut after the refused one",
     "The thresholds are compared at sampled depths only, and no test looks at the state after a refused cut.",
     [EC, EL, ES], [("status thresholds of each cut kind", EC), ("state is written only on success", EL + ", " + ES)],
     "Formulas for every dimension; spaces n = 2,3 (thorough 4). " + REAL)
prop("P05", "The update is the geometric one, for every state and every way to reach it",
     "An accepted cut moves the centre and shape exactly as the cut's parameters say, along the gradient direction measured in the ellipsoid's own "
     "metric, and reports that metric's measure of the gradient. Deferring the scale factor, the choice of constructor, translating "
     "space or rescaling the constraint changes nothing but the representation.",
     ["inputs", "configurations", "histories"], "all states, gradients, depths, scale factors; two-cut histories for deferral",
     "Tests pin a few numbers for one constructor; the deferred and non-deferred paths are never compared.",
     [EL, ES], [("update core", EL + " update_core, " + ES + " update_core"), ("constructors", EL + ", " + ES)],
     "n = 2,3 (thorough 4), one update from an arbitrary state, two updates for deferral. " + REAL)
prop("P06", "The factored ellipsoid and the full-matrix ellipsoid agree",
     "Started from the same ellipsoid and fed the same cuts, the numerically stable representation reports the same statuses, the same measures and "
     "the same centres as the full-matrix one, and describes the same ellipsoid.",
     ["histories", "inputs"], "all starting ellipsoids (positive definite shapes), centres and sequences of cuts",
     "Tests only compare iteration counts of the two on a few problems.",
     [ES, EL], [("LDL' update of the factors", ES), ("matrix update", EL)],
     "n = 2,3,4 and histories of 1-3 cuts; most histories exclude coincidental zero denominators. " + REAL)
prop("P07", "The cut formulas degenerate into one another consistently",
     "A cut of zero depth gives exactly the central cut; a pair whose second bound is absent or lies beyond the ellipsoid gives exactly the single cut; "
     "so does a pair when parallel cuts are switched off. The published variants of the parallel formula give the same result, and "
     "the discrete kind agrees with the plain kind on every depth at which both shrink the ellipsoid.",
     ["inputs"], "all depths, measures and every dimension",
     "Tests sample two or three depths for each formula.",
     [EC], [("cut formulas", EC)], "Symbolic dimension, all depths. " + REAL)
prop("P08", "Feasibility driver: honest answer, bounded work",
     "The feasibility driver returns a point only if the oracle accepted exactly that point, and returns nothing only if the search space reported a "
     "failure, its measure fell below the tolerance, or the iteration limit was reached. It never exceeds the iteration limit, asks only "
     "at the current centre, passes each cut on unchanged, and reports the number of iterations spent.",
     ["histories", "programs"], "all oracles, search spaces, tolerances, limits up to the bound",
     "Tests use one oracle each; the driver's contract is over every oracle and search space, including ones that fail at any step.",
     [CP], [("cutting_plane_feas loop", CP + " cutting_plane_feas")],
     "Arbitrary oracle and search space (every answer symbolic), iteration limit 0..8 and one long run (thorough more).")
prop("P09", "Optimisation driver: the best point and the target stay in step",
     "The optimisation driver returns the point at which the target was last improved, or nothing if it never was, and the target left behind is the "
     "oracle's value from that improvement. An improving answer is applied as a cut through the centre and any other as a deep cut; "
     "it stops at the first failure, at the tolerance or at the iteration limit, and reports the iterations spent.",
     ["histories", "programs"], "all oracles, search spaces, tolerances, limits up to the bound",
     "Tests use one oracle each, where most interleavings of improvement, failure and exhaustion never occur.",
     [CP], [("cutting_plane_optim loop", CP + " cutting_plane_optim")],
     "Arbitrary oracle and search space, iteration limit 0..5 (thorough more).")
prop("P10", "Discrete driver: candidates, retries and the best point",
     "The discrete driver returns the candidate at which the target was last improved, or nothing if it never was, always together with the matching "
     "target. It asks for an alternative exactly after a cut that had no effect, stops when no alternative is left, on failure, at the "
     "tolerance or at the limit, and reports the iterations spent.",
     ["histories", "programs"], "all oracles, search spaces, tolerances, limits up to the bound",
     "The retry path is hardly reached by the tests; its contract is over all interleavings of statuses.",
     [CP], [("cutting_plane_optim_q loop", CP + " cutting_plane_optim_q")],
     "Arbitrary oracle and search space, iteration limit 0..4 (thorough more).")
prop("P11", "Binary search keeps the threshold bracketed and hands the bracket back",
     "Binary search asks at the midpoint of the current bracket, moves the upper end there when the answer is yes and the lower end when it is no, stops "
     "once the half-width is below the tolerance or at the iteration limit, and leaves the final bracket with the caller. For a "
     "monotone question the threshold stays inside the bracket, the result says whether the upper end ever moved, and an inverted "
     "bracket is refused.",
     ["histories", "inputs"], "all brackets, tolerances, oracles, limits up to the bound",
     "One test with one oracle; the returned bracket is not looked at.",
     [CP], [("bsearch", CP + " bsearch")], "Iteration limit 0..3 (thorough 6), arbitrary oracle. " + REAL)
prop("P12", "The binary-search adaptor leaves its own search space intact on failure",
     "The adaptor hands the asked value to its oracle, solves the feasibility question on a copy of its search space, answers yes exactly when a point "
     "is found, and then makes that point the centre of its own space. When the question fails the space is as it was.",
     ["histories", "programs"], "all oracles and spaces, one or two questions",
     "A single end-to-end example exists.",
     [CP], [("BSearchAdaptor::assess_bs", CP)], "One or two questions, inner limit 0..2.")
prop("P13", "The factorisation accepts exactly the positive definite matrices",
     "The LDL' factorisation reports success exactly for positive definite matrices, whether entries are given as a matrix or fetched on demand. "
     "On refusal it names the first leading block that is not positive definite and has fetched nothing beyond that block.",
     ["inputs"], "all symmetric matrices up to the size bound",
     "Tests hold about ten fixed matrices.",
     [LD], [("row-by-row factorisation", LD + " factor")], "Every real symmetric matrix of size 1..4 (thorough 5). " + REAL)
prop("P14", "A refused matrix comes with a certificate",
     "When a matrix is refused, the reported witness is a vector on which the quadratic form of the leading block is exactly minus the reported "
     "value, which is never negative, and the quadratic form of any other matrix on it is computed over exactly that block; "
     "asking for a witness of an accepted matrix is an error.",
     ["inputs"], "all refused symmetric matrices up to the size bound",
     "Tests check the numbers for a few matrices.",
     [LD], [("back substitution", LD + " witness"), ("quadratic form", LD + " sym_quad")],
     "Every real symmetric matrix of size 1..4 (thorough 5). " + REAL)
prop("P15", "Square roots, re-use and the semidefinite variant of the factorisation",
     "For an accepted matrix the square root is an upper triangular R with R'R equal to it, and for a refused one asking is an error. A manager that "
     "factored another matrix before answers like a fresh one. The semidefinite variant refuses only with a strictly negative "
     "certificate, accepts every Gram matrix, and agrees with the strict variant when no pivot vanishes.",
     ["inputs", "histories"], "all symmetric matrices up to the size bound, two factorisations in a row",
     "Tests use a few matrices and never re-use a manager after a failure at another row.",
     [LD], [("sqrt", LD), ("storage re-used across factorisations", LD)],
     "Sizes 1..4, two consecutive factorisations at sizes 2,3 (thorough 4). " + REAL)
prop("P16", "LMI oracles cut off only infeasible points",
     "Each linear-matrix-inequality oracle accepts a point exactly when the matrix expression is positive definite there; otherwise its cut has the depth "
     "and gradient of the violated quadratic form, so every feasible point survives. The answer does not depend on earlier "
     "questions, and the on-demand and the eager oracle agree.",
     ["inputs", "histories"], "all symmetric coefficient matrices and points within the size bounds",
     "Tests use two small fixed problems.",
     ["src/oracles/lmi_oracle.rs", "src/oracles/lmi_old_oracle.rs", "src/oracles/lmi0_oracle.rs", LD],
     [("cut from the witness", "src/oracles/lmi_oracle.rs assess_feas")],
     "Matrices of size 2,3, one or two unknowns (thorough 4 / 3). " + REAL)
prop("P17", "The low-pass filter oracle reports violated specifications exactly",
     "A design is accepted exactly when every passband, stopband and transition constraint and the leading coefficient's sign hold; otherwise the cut is "
     "the value and gradient of a violated one, with the opposite bound of its band as the second depth, and designs that meet the specification survive "
     "both. Constraints are examined in turn, starting after the last reported one in each band, and an accepted design lowers the "
     "stopband level to the design's peak. The bands are sampled at 15 frequencies per coefficient, and the standard case is consistent: "
     "unit gain with 2.5 % ripple either way, stopband below it.",
     ["inputs", "histories"], "all responses, levels, designs and scan positions within the size bounds",
     "One filter problem is run end to end; scan positions and ties are never varied.",
     ["src/oracles/lowpass_oracle.rs"], [("round-robin scans over the bands", "src/oracles/lowpass_oracle.rs assess_feas")],
     "1-2 frequencies per band (thorough 3), arbitrary responses, every scan position; discretisation for a few sizes. " + REAL)
prop("P18", "Profit oracles accept and cut correctly, also in the worst case",
     "The profit oracle accepts a point exactly when both the input limit and the profit target hold; on acceptance the target becomes the profit there, "
     "otherwise it is unchanged and the cut is the value and gradient of a violated constraint, so every point at least as "
     "profitable survives. The robust oracle does the same for the least favourable scenario of its uncertainty box.",
     ["inputs", "histories"], "all positive prices, scales, limits, costs, elasticities, uncertainties, points, non-negative targets, one or "
     "two earlier questions",
     "Tests run one economy end to end.",
     ["src/oracles/profit_oracle.rs"], [("assess_optim", "src/oracles/profit_oracle.rs")],
     "One question after 0..1 earlier ones (thorough 2); exp and ln through their defining inequalities. " + REAL)
prop("P19", "The discrete profit oracle proposes the nearest integers",
     "The discrete profit oracle first answers like the continuous one, and at an acceptable point proposes the nearest positive integer inputs; it "
     "accepts the proposal exactly when it meets the constraints, with the target becoming its profit, and returns the "
     "proposal's cut moved to the queried point. A retry uses the same proposal and allows no further one.",
     ["inputs", "histories"], "all economies, points, targets; first attempt and retry",
     "One end-to-end test pins an iteration count.",
     ["src/oracles/profit_oracle.rs"], [("assess_optim_q", "src/oracles/profit_oracle.rs ProfitOracleQ")],
     "One question, or a retry after one (thorough: a new question after one); one known finding (sign of the shift). " + REAL)
prop("P20", "The quasi-convex example's oracle accepts and cuts correctly",
     "The quasi-convex example's oracle accepts a point exactly when both constraints hold, and then the target becomes the objective there; otherwise the "
     "target is unchanged and the cut is the value and gradient of a violated constraint. Points that meet both constraints at "
     "the target survive every cut, whatever was asked before.",
     ["inputs", "histories"], "all points, non-negative targets, 0-2 earlier questions",
     "Tests run it end to end from three starting points.",
     ["src/quasicvx.rs"], [("round-robin over the two constraints", "src/quasicvx.rs")],
     "0..2 earlier questions (thorough 4). " + REAL)
prop("P21", "The SVM oracle reports the worst sample",
     "The SVM oracle reports the smallest margin as the new target and the negated margin gradient of a worst sample as the direction; when "
     "every margin is at least one, the target is zero and no direction is left. Points whose smallest margin is larger survive the cut.",
     ["inputs", "histories"], "all data sets, labels +-1, weight vectors within the size bounds",
     "Tests use one or two small data sets.",
     ["src/oracles/svm_oracle.rs"], [("worst-sample search", "src/oracles/svm_oracle.rs")],
     "1..3 samples, 1..2 features (thorough 4 / 3); one known finding (depth). " + REAL)
prop("P22", "The max-cut oracle evaluates the rounded partition",
     "The max-cut oracle rounds the point by sign (zero counts as positive) and reports an improvement exactly when that partition cuts strictly more "
     "than the target, which then becomes its cut value. The direction is twice the weight each vertex cuts, negated, and a weight matrix "
     "that is not square is refused.",
     ["inputs", "histories"], "all symmetric weights and points within the size bound, one earlier question",
     "Tests use one graph.",
     ["src/oracles/maxcut_oracle.rs"], [("assess_optim", "src/oracles/maxcut_oracle.rs")],
     "1..4 vertices (thorough 5). " + REAL)
prop("P23", "Array arithmetic is elementwise, shape-preserving and refuses mismatches",
     "Every array operation computes the textbook result for every entry and shape: elementwise and scalar arithmetic, products, outer products, "
     "rank-one updates of symmetric matrices, constructors, ranges, rows, indexing, mapping and elementwise functions. Operands by value and by reference give the same result, "
     "inputs passed by reference are unchanged, and operands of mismatched size or kind are refused rather than computed with.",
     ["inputs"], "all real entries for every shape within the bound",
     "Tests hold a few literals per operation and hardly any rectangular or empty shapes.",
     ["src/arr.rs"], [("operator implementations", "src/arr.rs"), ("size assertions", "src/arr.rs")],
     "Vectors of length 0..4 (thorough 6), matrices up to 3x2 and 2x3 (thorough 4x4). " + REAL)
prop("P25", "Conjugate gradient answers only with a solution",
     "Conjugate gradient follows the textbook recurrence from the given start (or zero) and returns the first iterate whose residual is below the "
     "tolerance, the start included, or an error if there is none within the iteration limit. For a positive definite system with n "
     "unknowns, n iterations suffice.",
     ["inputs"], "all matrices, right-hand sides, starts, tolerances within the size bound",
     "Tests solve three systems.",
     ["src/conjugate_gradient.rs"], [("conjugate_gradient", "src/conjugate_gradient.rs")],
     "2 unknowns, up to 3 iterations, arbitrary matrix; 3 unknowns with fixed matrices. " + REAL)
prop("P26", "Power iteration reports the Rayleigh quotient of the vector it leaves",
     "Each power-iteration variant follows the textbook recurrence in its own normalisation, stops exactly when the change falls to the tolerance or at the "
     "iteration limit, and returns the Rayleigh quotient that belongs to the vector it leaves behind together with the iterations spent.",
     ["inputs", "configurations"], "all matrices, starts, tolerances within the size and iteration bounds",
     "Tests use one matrix and compare variants to rounding.",
     ["src/power_iteration.rs"], [("four variants", "src/power_iteration.rs")],
     "2 unknowns, up to 2 iterations; 3 unknowns, 1 iteration. " + REAL)

PC, PE, PK = "python_ai/ellalgo/cutting_plane.py", "python_ai/ellalgo/ell.py", "python_ai/ellalgo/ell_calc.py"
PL, PP = "python_ai/ellalgo/oracles/lmi_oracle.py", "python_ai/ellalgo/oracles/profit_oracle.py"
prop("P27", "Python port: the drivers ask, cut and stop as documented",
     "The Python package's feasibility and optimisation drivers, for any oracle and any search space with the documented methods: in every round the "
     "oracle is asked at the current centre, its cut is handed to the space unchanged as a bias cut, and the run ends exactly when the oracle accepts, a cut is "
     "not successful, the measure falls below the tolerance, or the limit is reached, with the matching status, point and round count. The general entry point picks "
     "the driver by the oracle's methods. Binary search keeps halving the bracket on the side the oracle points to, keeps a monotone threshold bracketed, and stops at "
     "the tolerance or the limit. Without options the limit is 2000 rounds and the tolerance 1e-20.",
     ["inputs", "histories"], "all oracles, search spaces, statuses and tolerances within the iteration bounds",
     "The package's own driver tests do not even load at this commit.",
     [PC], [("drivers and binary search", PC)], "")
prop("P28", "Python port: cuts are classified and applied exactly as computed",
     "The Python calculator classifies every cut by its documented rule (measure not positive: no effect; single cut: no solution from depth 0 on, no effect at or below "
     "minus the root of the measure, success between; two bounds: no solution when their product is not positive), returns the identity for a refused cut, and for an accepted single cut a positive "
     "shrink factor, a scale strictly between 0 and 1 and a move towards the cut, independent of the unit of length; the pair form picks the formula the pair calls for. The Python ellipsoid takes "
     "exactly the calculator's status and parameters, for each cut kind and depth form, with or without deferred scaling; a refused cut changes nothing; constructors build "
     "the ellipsoid described; arrays of the caller are never shared or modified; mismatched shapes are refused.",
     ["inputs", "configurations"], "all states, gradients, depths; every dimension for the calculator",
     "The tests compare signs of a few results; aliasing, refusals and the deferred scaling are not looked at.",
     [PE, PK], [("update of centre, shape and size", PE), ("classification and formulas", PK)], "")
prop("P29", "Python port: the oracles' cuts are the constraint's own",
     "The Python LMI oracle accepts exactly the points where the matrix is positive semidefinite, and otherwise returns as a cut the quadratic form of an eigenvector of the "
     "least eigenvalue, as an affine function of the point, negative at the point asked; asking never changes the matrices. The Python profit oracle returns the capacity cut beyond the "
     "capacity, otherwise the gradient of the negative profit, and reports optimality exactly for nearly stationary points. Mismatched matrices are refused.",
     ["inputs"], "all matrices, points and parameters within the size bounds",
     "Two or three fixed matrices and one fixed parameter set.",
     [PL, PP], [("eigenvector cut", PL), ("capacity test and gradient", PP)], "")

HOW = {'P27': '`py_feas`, `py_optim`, `py_default`, `py_bsearch` (pyharness.py): whole runs against an arbitrary environment, compared with the contract. '
        "Known finding (`py_driver_ell`): the drivers call `xc()`/`tsq()`, which the package's own `Ell` has as attributes.",
 'P28': '`py_calc`: classification, identity on refusal, units, for symbolic n. `py_ell`: the update against the calculator of the same tree. `py_ctor`, `py_bad`.',
 'P29': '`py_lmi`: the constraint matrix at the point is written V diag(lam) V^T with a Cayley-parametrised V, which numpy.linalg.eigh is then known to return '
        '(the argument it gets is checked); the cut is compared at an arbitrary further point. `py_profit`, `py_lmi_bad`.',
 'P01': '`h_calc_contain` (formulas, symbolic n): containment in the cut coordinate is `(u+rho)^2/(1-sigma)+tsq-u^2 <= delta tsq` for every kept u, '
        'checked at the ends (convexity) and for an arbitrary u. `h_space_cut` mode 0: an arbitrary ellipsoid and gradient; the old and new '
        "ellipsoid are read through the public interface, shown to differ by a scaled rank-one term along the gradient's image, and the containment "
        'condition is checked on the parameters so derived.',
 'P02': 'same entries with the parallel kinds.',
 'P03': '`h_calc_volume`: `delta^n (1-sigma) <= 1`; for symbolic n by the derivative-sign lemma stated in calc.rs (its premises are the queries), '
        'for fixed n directly. `h_space_cut` mode 1: the same on the parameters derived from the object before and after the cut.',
 'P04': '`h_calc_status`: exact status table over all depths incl. tangency; `h_space_status`: status through the space, state equality after '
        'refusal and after one further cut. Found one defect (repaired).',
 'P05': '`h_space_cut` mode 2 (centre/shape equal to the textbook update), `h_covariant` (translation, rescaling of the gradient), `h_defer` '
        '(deferred vs. not), `h_ctor` (constructors, set_xc). Both representations, the factored one also from an arbitrary factored state (`flavour '
        '3`).',
 'P06': '`h_stable_step`: one arbitrary cut from the same arbitrary ellipsoid (positive definite shape through its factors): same status, measure, '
        'centre, shape - the inductive step for histories of any length. `h_stable_equiv`: explicit histories of 1-3 cuts from diagonal shapes, '
        'degenerate denominators included in some. Found three defects (repaired).',
 'P07': '`h_calc_degenerate`, 16 identities, symbolic n.',
 'P08': '`h_feas`: the driver against an oracle and a search space whose every answer is symbolic; the full event trace is compared with the '
        'contract. The number of paths is linear in the limit, so 40 rounds are explored with every answer free.',
 'P09': '`h_optim`: like P08. Limits up to 5 with an unconstrained environment; long runs with an environment that departs from a base pattern a '
        'bounded number of times (`Freedom` in driver.rs).',
 'P10': '`h_optim_q`: like P09.',
 'P11': '`h_bsearch` (any oracle / monotone oracle with unknown threshold; long runs with a bounded number of departures from a base pattern), '
        '`h_bsearch_bad`. Found one defect (repaired).',
 'P12': '`h_adaptor`',
 'P13': '`h_ldlt` mode 0: verdict against the leading minors (Sylvester), block reported, entries fetched. `h_ldlt_big`: sizes 5..12; every '
        "symmetric matrix is written as L D L' on its leading block up to the first non-positive pivot, arbitrary outside, which makes the exact "
        'rational arithmetic collapse.',
 'P14': "`h_ldlt` mode 1: v'Av = -ep, ep >= 0, v != 0, `sym_quad` against the plain double sum. `h_ldlt_big`, `h_ldlt_reuse`, `h_ldlt_reuse_big`: "
        'larger sizes and re-used managers.',
 'P15': "`h_ldlt` mode 2 (R'R = A, panics), `h_ldlt_reuse` (fresh vs. used manager), `h_ldlt_semi`. (That the semidefinite variant accepts *only* "
        'semidefinite matrices is false by design of the algorithm - it restarts after a zero pivot - and is not claimed.) `h_ldlt_big`, '
        '`h_ldlt_reuse_big`, `h_ldlt_semi_big`: larger sizes through the factors.',
 'P16': '`h_lmi`: constraint matrix at the query is an arbitrary symmetric matrix; verdict by minors; the cut equals the witness quadratic form as '
        'an affine function, checked at an arbitrary further point; `h_lmi_repeat`, `h_lmi_same`. `h_lmi_big`, `h_lmi_seq`: larger inequalities '
        'through the factors, and histories of queries.',
 'P17': '`h_lowpass`: arbitrary responses, levels, design, scan positions; mode 0 compares with a direct model of the round-robin scan, mode 1 is '
        'the survival of an arbitrary design that meets the specification; `h_lowpass_new`: discretisation (concrete).',
 'P18': '`h_profit`, `h_profit_rb`: modes 0 verdict/target, 1 cut, 2 survival of an arbitrary better point (log-sum-exp tangent).',
 'P19': "`h_profit_q`. Known finding: the candidate's cut is shifted with the wrong sign; the other modes accept either sign and nothing else.",
 'P20': '`h_quasicvx`.',
 'P21': '`h_svm`. Known finding: the depth.',
 'P22': '`h_maxcut`. (Its (direction, depth) pair is a heuristic, not a valid cutting plane: only what the statement says is claimed.)',
 'P23': '`h_arr`, `h_arr_prod`, `h_arr_rank1`: every operation against the elementwise definition; `h_arr_bad`: mismatches panic.',
 'P25': '`h_cg`: against the textbook recurrence and the residual of the answer; n-step termination for positive definite systems. Arbitrary 2x2 '
        'matrices; up to 5 unknowns with one unknown entry (then everything is a rational function of one variable and the tolerance). Found one '
        'defect (repaired).',
 'P26': '`h_power`: Rayleigh quotient, direction of the iterate, stopping rule. (Variant 3 is not normalised at the iteration limit; not claimed.)'}

NA = []


def bounds(id):
    from checks import PROPS
    sp = PROPS[id]
    b = "Bounds: " + sp["bounds"]
    if sp["assumptions"]:
        b += ". Assumes: " + "; ".join(sp["assumptions"])
    return b + ". " + REAL


def design():
    f = os.path.join(ROOT, "DESIGN.md")
    d = open(f).read()
    a, b = "<!-- properties: written by meta.py -->\n", "<!-- end of properties -->\n"
    head, rest = d.split(a)
    tail = rest.split(b)[1]
    out = ""
    for p in P:
        out += "* **%s %s.** %s\n  %s\n  Tests cannot: %s\n" % (p["id"], p["title"], HOW[p["id"]], bounds(p["id"]), p["why"])
    open(f, "w").write(head + a + out + b + tail)


def main():
    design()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bash build.sh", checks=[dict(
        property=p["id"], quick_cmd="python3-vt check.py %s quick" % p["id"],
        thorough_cmd="python3-vt check.py %s thorough" % p["id"], technique=PYTECH if p["files"][0].startswith("python_ai") else TECH, level="model_checking",
        level_note=bounds(p["id"])[:900], evidence_file="evidence/%s.json" % p["id"]) for p in P],
        not_applicable=NA, notes="See DESIGN.md. KNOWN_FINDINGS.txt lists findings and repairs.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
