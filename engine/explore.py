"""Path exploration of one harness entry point with fixed parameters."""
import random
import sys
import time
from fractions import Fraction

from . import dom as D
from . import poly as P
from . import solver as S
from .dom import Ctx, PathEnd, Violation, Inconclusive, Unsupported
from .rt import RT

sys.setrecursionlimit(20000)


class Result:
    def __init__(self):
        self.paths = 0
        self.outcomes = {}
        self.labels = {}          # label -> number of discharged instances
        self.solved = 0
        self.steps = 0
        self.forks = 0
        self.uncertain = 0
        self.violations = []      # dict(label, why, inputs candidates)
        self.inconclusive = []
        self.errors = []
        self.witness = []         # (inputs, observed(evaluated)) for translation validation
        self.wall = 0.0
        self.max_pc = 0
        self.smt = None
        self.funcs = []
        self.infeasible = 0


BOX = 8


def components(pc):
    """partition constraints into variable-disjoint groups"""
    groups = []
    for k, (p, m) in enumerate(pc):
        vs = set(p.vars)
        todo = set(vs)
        while todo:
            n = set()
            for x in todo:
                n |= S.var_deps(x)
            todo = n - vs
            vs |= todo
        hit = [g for g in groups if g[0] & vs]
        for g in hit:
            groups.remove(g)
            vs |= g[0]
        groups.append((vs, sum((g[1] for g in hit), []) + [(p, m)]))
    return groups


def closure(vs):
    vs = set(vs)
    todo = set(vs)
    while todo:
        n = set()
        for x in todo:
            n |= S.var_deps(x)
        todo = n - vs
        vs |= todo
    return vs


def pin_transcendental(ctx, cons, tries, budget_s, line=None, line_vars=()):
    """models of pc + cons in which the inputs below exp/ln are pinned to rationals and the atoms to
    tight intervals around their true values (the solvers only know axioms of exp and ln)"""
    vs = set(line_vars)
    for p, _ in list(ctx.pc) + list(ctx.generic_ne) + list(cons):
        vs |= set(p.vars)
    vs = closure(vs)
    atoms = sorted(x for x in vs if P.VARS[x].kind in ("exp", "ln"))
    if not atoms:
        return
    below = sorted(x for a in atoms for x in closure({a}) if P.VARS[x].kind == "in")
    below = sorted(set(below))
    m0 = model_of(ctx, cons, [line] if line else [], line_vars, BOX, None, slow=4000)
    if m0 == "unsat" and line:
        return
    rnd = random.Random(SEED + 7)
    t_end = time.time() + budget_s
    for t in range(tries):
        if time.time() > t_end:
            return
        fix = {}
        for x in below:
            mask = ctx.var_mask(x)
            v = None
            if t < 3 and isinstance(m0, dict) and x in m0:
                den = (4, 16, 1)[t]
                v = Fraction(round(m0[x] * den), den)
                if abs(v) > 20:
                    v = None
            if v is None:
                v = Fraction(rnd.randint(-12, 12), 4)
            if mask & 1 == 0 and v < 0:
                v = -v
            if mask & 2 == 0 and v == 0:
                v = Fraction(rnd.choice([1, 2, 3, 5, 8]), 4)
            fix[x] = v
        iv = {}
        try:
            for a in atoms:
                v = eval_num(a, fix, ctx)
                iv[a] = v
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            continue
        r = model_of(ctx, cons, [line] if line else [], line_vars, None, fix, slow=0, atoms=iv)
        if isinstance(r, dict):
            yield r


def model_of(ctx, cons, extra_lines=(), extra_vars=(), box=None, fix=None, slow=20000, atoms=None):
    """model of pc + cons (+ SMT lines); returns {var: value} or 'unsat' / 'unknown'"""
    goals = list(cons)
    gv = set(extra_vars)
    for p, _ in goals:
        gv |= set(p.vars)
    pc = list(ctx.pc) + list(ctx.generic_ne)
    used, seen = S.cone(gv, pc) if gv else ([], set())
    usedset = set(used)
    lines = list(extra_lines)
    m = {}
    fix = fix or {}

    def bounds(vs):
        out = []
        for x in vs:
            if atoms and x in atoms:
                v, w = Fraction(atoms[x]), Fraction(abs(atoms[x]) + 1) / 10 ** 10
                out.append("(assert (and (<= %s x%d) (<= x%d %s)))" % (S.smt_rf(v - w), x, x, S.smt_rf(v + w)))
            if P.VARS[x].kind != "in":
                continue
            if x in fix:
                out.append("(assert (= x%d %s))" % (x, S.smt_rf(Fraction(fix[x]))))
            elif box:
                out.append("(assert (and (<= x%d %d.0) (>= x%d (- %d.0))))" % (x, box, x, box))
        return out
    if gv:
        v, mm = S.check([pc[i] for i in used] + goals, extra=lines + bounds(seen), want_model=True,
                        want_vars=seen, slow_ms=slow)
        if v != "sat":
            return v
        if mm is None:
            return "unknown"
        m.update(mm)
    rest = [pc[i] for i in range(len(pc)) if i not in usedset]
    for vs, cs in components(rest):
        v, mm = S.check(cs, extra=bounds(vs), want_model=True, want_vars=vs, slow_ms=slow)
        if v != "sat":
            return v
        if mm is None:
            return "unknown"
        m.update(mm)
    return m


def input_values(ctx, m):
    out = []
    k = 0
    for kind, x in ctx.syms:
        if kind == "c":
            out.append(("c", x))
            continue
        if x in m:
            v = m[x]
        else:
            v = Fraction(2 + (k * 5) % 7, 4)      # unconstrained on this path
            if kind == "n":
                v = Fraction(2)
        k += 1
        if kind == "n":
            if v.denominator != 1:
                return None
            out.append(("n", int(v)))
        else:
            try:
                out.append(("f", float(v)))
            except OverflowError:
                return None
    return out


def eval_num(v, m, ctx):
    """float value of an exact value under the model (inputs), atoms evaluated numerically"""
    import math
    memo = {}

    def var(ix):
        if ix in memo:
            return memo[ix]
        vv = P.VARS[ix]
        if vv.kind == "in":
            r = float(m[ix])
        elif vv.kind == "sqrt":
            a = pol(vv.arg)
            r = math.sqrt(max(a, 0.0))
        else:
            a = rf(vv.arg)
            r = {"exp": math.exp, "ln": math.log, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
                 "round": lambda t: math.copysign(math.floor(abs(t) + 0.5), t)}[vv.kind](a)
        memo[ix] = r
        return r

    def pol(p):
        s = 0.0
        for mo, c in p.d.items():
            t = float(c)
            for i, e in P.mono_iter(mo):
                t *= var(i) ** e
            s += t
        return s

    def rf(v):
        if type(v) is not P.RF:
            return float(v)
        r = pol(v.num) / v.den
        for f, k in v.fac:
            r /= pol(P.FACTORS[f]) ** k
        return r
    return var(v) if type(v) is int else rf(v)


def int_fixes(ctx):
    """for symbolic integers: candidate concrete assignments"""
    ns = [x for k, x in ctx.syms if k == "n"]
    if not ns:
        return [None]
    vals = [2, 3, 4, 5, 8, 20]
    # and whatever the path itself says about them
    own = [(p, m) for p, m in ctx.pc if p.vars and set(p.vars) <= set(ns)]
    if own:
        v, m = S.check(own, want_model=True, want_vars=set(ns))
        if v == "sat" and m:
            lo = max([-((-x.numerator) // x.denominator) for x in map(Fraction, m.values())] + [2])
            vals = [n for n in (lo, lo + 1, 2 * lo) if n not in vals] + vals
    else:
        vals += [64, 1000]
    return [{x: n for x in ns} for n in vals]


def candidates(ctx, viol, limit=8):
    """input vectors that should exhibit the violation, most robust first"""
    out = []
    status = "unknown"
    fixes = int_fixes(ctx)
    marg = []
    if viol.margin is not None:
        kind, d = viol.margin
        if type(d) is P.RF:
            s = S.smt_rf(d)
            vs = S.rf_vars(d)
            for eps in ("1.0", "0.05", "0.001"):
                if kind == "abs":
                    marg.append(("(assert (or (>= %s %s) (<= %s (- %s))))" % (s, eps, s, eps), vs))
                else:
                    marg.append(("(assert (>= %s %s))" % (s, eps), vs))
    marg.append((None, ()))
    for line, vs in marg:
        for r in pin_transcendental(ctx, viol.cons, 8, 20, line, vs):
            status = "sat"
            iv = input_values(ctx, r)
            if iv is not None and iv not in out:
                out.append(iv)
            if len(out) >= limit // 2:
                break
        if out:
            break
    for line, vs in marg:
        for box in (BOX, 1000, None):
            for fix in fixes:
                r = model_of(ctx, viol.cons, [line] if line else [], vs, box, fix,
                             slow=6000 if (line or box) else 30000)
                if r == "unsat" and line is None and box is None and fix is None:
                    return [], "unsat"
                if isinstance(r, dict):
                    status = "sat"
                    iv = input_values(ctx, r)
                    if iv is not None and iv not in out:
                        out.append(iv)
                        if len(out) >= limit:
                            return out, status
            if out:
                break
    return out, status


def hunt(ctx, inc, tries=10, budget_s=25):
    """an assertion the solvers could not decide in general: look for a counterexample with some of
    the inputs pinned to small rationals"""
    rnd = random.Random(SEED)
    ins = [x for k, x in ctx.syms if k == "f"]
    ns = [x for k, x in ctx.syms if k == "n"]
    vals = [Fraction(k, 4) for k in range(-8, 9)]
    out = []
    t_end = time.time() + budget_s
    for t in range(tries):
        keep = [0, 1, 2, 3][t % 4]
        free = set(rnd.sample(ins, min(keep, len(ins))))
        fix = {x: rnd.choice(vals) for x in ins if x not in free}
        fix.update(rnd.choice(int_fixes(ctx)) or {})
        r = model_of(ctx, [(inc.q, inc.bad)], [], (), BOX, fix, slow=0)
        if isinstance(r, dict):
            iv = input_values(ctx, r)
            if iv is not None:
                out.append(iv)
                if len(out) >= 3:
                    break
        if time.time() > t_end:
            break
    return out


SEED = 1


def explore(mod, rt, entry, params, budget_s=600, witnesses=2, max_paths=200000, stop_on_violation=True, max_violations=3):
    P.reset_all()
    S.STATS = S.Stats()
    Ctx.PROBE.clear()
    res = Result()
    fn = mod.get(entry)
    t0 = time.time()
    stack = [[]]
    seen_labels = {}
    while stack:
        if time.time() - t0 > budget_s:
            res.errors.append("time budget exhausted with %d paths pending" % len(stack))
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, params)
        rt.begin(ctx)
        viol = None
        hunted = None
        outcome = "done"
        try:
            fn()
            if ctx.expect_panic:
                viol = Violation(ctx.expect_panic, "no panic")
        except PathEnd as e:
            outcome = e.kind
            if e.kind == "panic":
                if ctx.expect_panic:
                    ctx.checks[ctx.expect_panic] = ctx.checks.get(ctx.expect_panic, 0) + 1
                else:
                    viol = Violation("panic", e.info)
            elif e.kind == "budget":
                viol = Violation("termination", e.info)
        except Violation as e:
            viol = e
            outcome = "violation"
        except Inconclusive as e:
            iv = hunt(ctx, e)
            if iv:
                viol = Violation(e.label, "solver model", [(e.q, e.bad)])
                hunted = iv
            else:
                res.inconclusive.append("%s: %s" % (e.label, (repr(e.q))[:300]))
                outcome = "inconclusive"
        except Unsupported as e:
            # an unsupported operation on an infeasible path does not matter
            if ctx.uncertain and isinstance(model_of(ctx, []), str) and model_of(ctx, []) == "unsat":
                outcome = "infeasible"
            else:
                res.errors.append("unsupported: %s" % e)
                outcome = "unsupported"
        res.steps += rt.steps
        if viol is not None:
            if hunted:
                cands, st = hunted, "sat"
            else:
                cands, st = candidates(ctx, viol)
            if st == "unknown" and not cands:
                res.inconclusive.append("%s (%s): path not decided" % (viol.label, viol.why))
                outcome = "inconclusive"
            elif st == "unsat":
                outcome = "infeasible"
                res.infeasible += 1
            else:
                seen_labels[viol.label] = seen_labels.get(viol.label, 0) + 1
                res.violations.append(dict(label=viol.label, why=viol.why, candidates=cands,
                                           status=st, path=[d[0] for d in ctx.decisions],
                                           pc=["%r %s 0" % (p, S.OPS[m]) for p, m in ctx.pc][:40]))
                outcome = "violation"
        res.outcomes[outcome] = res.outcomes.get(outcome, 0) + 1
        if outcome not in ("assume", "infeasible"):
            res.paths += 1
            res.max_pc = max(res.max_pc, len(ctx.pc))
        if ctx.uncertain:
            res.uncertain += 1
        res.forks += len(ctx.pending)
        if outcome in ("done", "panic"):
            for l, k in ctx.checks.items():
                res.labels[l] = res.labels.get(l, 0) + k
            res.solved += ctx.solved_checks
            if len(res.witness) < witnesses:
                w = None
                pinned = next(pin_transcendental(ctx, [], 3, 3), None)
                for box in (BOX, None):
                    for fix in int_fixes(ctx)[:1]:
                        r = pinned or model_of(ctx, [], box=box, fix=fix, slow=5000)
                        if isinstance(r, dict):
                            iv = input_values(ctx, r)
                            if iv is not None:
                                mm = {}
                                for (k, x), (k2, val) in zip(ctx.syms, iv):
                                    if k != "c":
                                        mm[x] = val
                                try:
                                    w = dict(inputs=iv, outcome=outcome,
                                             observed=[(l, eval_num(a, mm, ctx)) for l, a in ctx.observed])
                                except (ZeroDivisionError, OverflowError, ValueError, KeyError):
                                    w = None
                                break
                    if w:
                        break
                if w:
                    res.witness.append(w)
        stack.extend(ctx.pending)
        if res.errors or (stop_on_violation and len(res.violations) >= max_violations):
            break
        if res.paths > max_paths:
            res.errors.append("path limit")
            break
    res.wall = time.time() - t0
    res.smt = S.STATS.as_dict()
    res.funcs = sorted(mod.executed)
    return res
