"""Path context (decisions, path condition, sign facts) and the floating point
operations of the interpreter over exact values.

A double is one of
  Fraction      an exact real
  float         only inf, -inf or nan
  RF            a symbolic real (rational function over symbols and atoms)
"""
import math
import struct
from fractions import Fraction

from . import poly as P
from . import solver as S
from .poly import RF

NEG, ZER, POS = 1, 2, 4
INF = float("inf")
NAN = float("nan")
F0 = Fraction(0)
F1 = Fraction(1)
FLIP = [0, 4, 2, 6, 1, 5, 3, 7]


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """raised to finish a path; kind in {'assume', 'panic', 'done', ...}"""

    def __init__(self, kind, info=""):
        Exception.__init__(self, kind, info)
        self.kind = kind
        self.info = info


class Violation(Exception):
    def __init__(self, label, why, cons=None, margin=None):
        Exception.__init__(self, label, why)
        self.label = label
        self.why = why
        self.cons = cons or []        # extra constraints (poly, mask) for the model query
        self.margin = margin          # RF d: violated when d > 0 ; used to ask for a robust model


class Ctx:
    def __init__(self, prefix, params):
        self.prefix = prefix          # list of (alt index, adds constraint)
        self.params = params
        self.decisions = []
        self.pending = []             # prefixes to explore later
        self.pc = []                  # (poly, mask)
        self.facts = {}               # poly id -> mask
        self.syms = []                # ordered inputs: ("f", var) | ("c", int)
        self.nsym = 0
        self.uncertain = False        # some feasibility query came back unknown
        self.checks = {}              # label -> count discharged on this path
        self.observed = []
        self.sqrts = []
        self.generic = False          # exclude inputs that make a denominator vanish
        self.generic_ne = []
        self.atoms = []
        self.steps = 0
        self.expect_panic = False
        self.assumed = 0
        self.solved_checks = 0

    # -- facts -----------------------------------------------------------
    def var_mask(self, ix):
        v = P.VARS[ix]
        m = self.facts.get(P.var_poly(v).id, 7)
        if v.kind == "sqrt":
            m &= 6
            if m & 2 and self.quick(v.arg) & 2 == 0:
                m &= 4
        elif v.kind == "exp":
            m &= 4
        return m

    def quick(self, p):
        """allowed sign mask of poly p from facts and monomial signs"""
        if not p.d:
            return ZER
        if len(p.d) == 1 and 0 in p.d:
            return POS if p.d[0] > 0 else NEG
        c, q = P.primitive(p)
        A = self.facts.get(q.id, 7)
        if c < 0:
            A = FLIP[A]
        if A in (1, 2, 4):
            return A
        # monomial-wise
        tot = None
        vm = {}
        for m, cf in p.d.items():
            s = POS if cf > 0 else NEG
            for i, e in P.mono_iter(m):
                k = vm.get(i)
                if k is None:
                    k = vm[i] = self.var_mask(i)
                if e & 1 == 0:
                    k = (POS if k & 5 else 0) | (k & ZER)
                if k == POS:
                    continue
                if k == NEG:
                    s = FLIP[s]
                elif k == ZER:
                    s = ZER
                    break
                else:
                    r = 0
                    for x in (1, 2, 4):
                        if s & x:
                            if x == 2:
                                r |= 2
                            else:
                                r |= k if x == 4 else FLIP[k]
                    s = r
            if tot is None:
                tot = s
            else:
                # sum of two sign sets
                r = 0
                for x in (1, 2, 4):
                    if tot & x:
                        for y in (1, 2, 4):
                            if s & y:
                                r |= x if y == 2 else y if x == 2 else x if x == y else 7
                tot = r
            if tot == 7:
                break
        A &= tot
        return A if A else 7

    def core(self, rf_num, fac):
        """sign-equivalent core: returns (flip, poly) after dropping strictly signed factors"""
        c, fl = P.split_factors(rf_num)
        flip = c < 0
        acc = {}
        for f, k in fl:
            acc[f] = acc.get(f, 0) + k
        nz = set()
        for f, k in fac:
            acc[f] = acc.get(f, 0) + k
            nz.add(f)
        q = P.ONE
        for f, k in sorted(acc.items()):
            fp = P.FACTORS[f]
            m = self.quick(fp)
            if f in nz:
                m &= 5
            if k & 1 == 0:
                if m & 2 == 0:
                    continue
                q = P.pmul(q, P.pmul(fp, fp))
            else:
                if m == POS:
                    continue
                if m == NEG:
                    flip = not flip
                    continue
                if len(acc) > 1 or f in nz:
                    m = self.probe(fp)
                    if m == POS:
                        continue
                    if m == NEG:
                        flip = not flip
                        continue
                q = P.pmul(q, fp)
        return flip, q

    PROBE = {}

    def probe(self, fp):
        """ask the solver whether the path condition already fixes the sign of fp"""
        rel = self.relevant([(fp, 7)])[:-1]
        key = (fp.id, frozenset((p.id, m) for p, m in rel))
        r = Ctx.PROBE.get(key)
        if r is None:
            r = 7
            if rel or any(P.VARS[i].kind == "sqrt" for i in fp.vars):
                for bad, good in ((3, POS), (6, NEG)):
                    v, _ = S.check(rel + [(fp, bad)], fast_ms=400, slow_ms=0, feas=True)
                    if v == "unsat":
                        r = good
                        break
            Ctx.PROBE[key] = r
        if r != 7:
            self.add_fact(fp, r)
        return r

    def add_fact(self, q, mask):
        c, q = P.primitive(q)
        if c < 0:
            mask = FLIP[mask]
        self.facts[q.id] = self.facts.get(q.id, 7) & mask
        # a product that is known non-zero has non-zero variables
        if len(q.d) == 1 and mask & 2 == 0:
            for i in q.vars:
                v = P.var_poly(P.VARS[i])
                self.facts[v.id] = self.facts.get(v.id, 7) & 5

    def relevant(self, goals):
        gv = set()
        for p, _ in goals:
            gv |= set(p.vars)
        used, _ = S.cone(gv, self.pc)
        return [self.pc[i] for i in used] + list(goals)

    def feasible(self, q, mask):
        if mask == 7:
            return "sat"
        if mask == 0:
            return "unsat"
        v, _ = S.check(self.relevant([(q, mask)]), axioms=True, slow_ms=Ctx.FEAS_SLOW_MS, feas=True)
        return v

    FEAS_SLOW_MS = 3000

    def decide(self, num, fac, parts):
        """parts: masks partitioning the sign of num/fac; returns chosen index"""
        flip, q = self.core(num, fac)
        if flip:
            parts = [FLIP[m] for m in parts]
        A = self.quick(q)
        if len(q.d) == 1 and 0 in q.d:
            A = POS
        cand = [i for i, m in enumerate(parts) if m & A]
        if len(cand) == 1:
            return cand[0]
        n = len(self.decisions)
        if n < len(self.prefix):
            i, addc = self.prefix[n]
            self.decisions.append((i, addc))
            m = parts[i] & A
            if addc:
                self.pc.append((q, m))
            self.add_fact(q, m)
            return i
        res = []
        for j, i in enumerate(cand):
            if j == len(cand) - 1 and not res:
                res.append(i)       # path is feasible and nothing else is
                break
            v = self.feasible(q, parts[i] & A)
            if v == "unknown":
                self.uncertain = True
            if v != "unsat":
                res.append(i)
        i = res[0]
        addc = len(res) > 1
        for k in res[1:]:
            self.pending.append(list(self.decisions) + [(k, True)])
        self.decisions.append((i, addc))
        m = parts[i] & A
        if addc:
            self.pc.append((q, m))
        self.add_fact(q, m)
        return i

    def choose(self, k):
        """non-deterministic choice among 0..k-1"""
        if k <= 1:
            return 0
        n = len(self.decisions)
        if n < len(self.prefix):
            i, a = self.prefix[n]
            self.decisions.append((i, a))
            return i
        for j in range(1, k):
            self.pending.append(list(self.decisions) + [(j, True)])
        self.decisions.append((0, True))
        return 0

    # -- assertions ------------------------------------------------------
    def assume_rf(self, d, mask):
        """assume sign(d) in mask"""
        t = type(d)
        if t is Fraction:
            if not (mask & sgn_mask(d)):
                raise PathEnd("assume")
            return
        if t is float:
            if d != d or not (mask & (POS if d > 0 else NEG)):
                raise PathEnd("assume")
            return
        flip, q = self.core(d.num, d.fac)
        if flip:
            mask = FLIP[mask]
        A = self.quick(q)
        if A & mask == A:
            return
        if A & mask == 0:
            raise PathEnd("assume")
        self.pc.append((q, A & mask))
        self.add_fact(q, A & mask)
        self.assumed += 1

    def still_feasible(self):
        """called after assumes that could have made the path infeasible"""
        n = len(self.decisions)
        if n < len(self.prefix):
            self.decisions.append(self.prefix[n])
            return
        v, _ = S.check(list(self.pc), slow_ms=Ctx.FEAS_SLOW_MS, feas=True)
        if v == "unsat":
            raise PathEnd("assume")
        if v == "unknown":
            self.uncertain = True
        self.decisions.append((0, False))

    def check_rf(self, d, mask, label, margin):
        """assert sign(d) in mask on this path; margin: value that is > 0 iff violated"""
        self.checks[label] = self.checks.get(label, 0) + 1
        t = type(d)
        if t is Fraction:
            if mask & sgn_mask(d):
                return
            raise Violation(label, "value %s" % float(d))
        if t is float:
            if d == d and mask & (POS if d > 0 else NEG):
                return
            raise Violation(label, "value %s" % d)
        flip, q = self.core(d.num, d.fac)
        bad = 7 & ~(FLIP[mask] if flip else mask)
        A = self.quick(q)
        bad &= A
        if not bad:
            self.solved_checks += 1
            return
        n = len(self.decisions)
        if n < len(self.prefix):
            self.decisions.append(self.prefix[n])
            return
        v, _ = S.check(self.relevant([(q, bad)]), slow_ms=Ctx.CHECK_SLOW_MS)
        self.solved_checks += 1
        if v == "unsat":
            self.decisions.append((0, False))
            return
        if v == "sat":
            raise Violation(label, "solver model", [(q, bad)], margin)
        raise Inconclusive(label, q, bad)

    CHECK_SLOW_MS = 60000


class Inconclusive(Exception):
    def __init__(self, label, q, bad):
        Exception.__init__(self, label)
        self.label = label
        self.q = q
        self.bad = bad


C = None      # current context


def set_ctx(c):
    global C
    C = c


def sgn_mask(x):
    return POS if x > 0 else NEG if x < 0 else ZER


# ---------------------------------------------------------------------------
def from_bits64(b):
    f = struct.unpack("<d", struct.pack("<Q", b))[0]
    return from_float(f)


def from_float(f):
    if f != f or f in (INF, -INF):
        return f
    return Fraction(f)


class BitsOf:
    """bit pattern of a double whose value is not a plain concrete f64"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __and__(self, m):
        if m == 0xFFFFFFFFFFFFFFFF:
            return self
        if m == 0x7FFFFFFFFFFFFFFF:
            return to_bits(fabs(self.v))
        if m == 0x8000000000000000:
            return (1 << 63) if signbit(self.v) else 0
        raise Unsupported("bit and on symbolic double")

    __rand__ = __and__

    def __xor__(self, m):
        if m == 1 << 63:
            return to_bits(fneg(self.v))
        raise Unsupported("bit xor on symbolic double")

    __rxor__ = __xor__

    def __rshift__(self, k):
        if k == 63:
            return 1 if signbit(self.v) else 0
        raise Unsupported("shift of symbolic double bits")

    def __eq__(self, o):
        if isinstance(o, BitsOf):
            return fcmp_oeq(self.v, o.v)
        return fcmp_oeq(self.v, from_bits64(o))

    def __hash__(self):
        return id(self)

    def __ne__(self, o):
        return not self.__eq__(o)

    def _no(self, *a):
        raise Unsupported("integer operation on symbolic double bits")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __or__ = __ror__ = __lshift__ = __lt__ = __le__ = __gt__ = __ge__ = __index__ = __int__ = _no


def to_bits(v):
    if type(v) is Fraction:
        try:
            f = float(v)
        except OverflowError:
            return BitsOf(v)
        if Fraction(f) == v if f not in (INF, -INF) else False:
            return struct.unpack("<Q", struct.pack("<d", f))[0]
        return BitsOf(v)
    if type(v) is float:
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return BitsOf(v)


def of_bits(b):
    if type(b) is BitsOf:
        return b.v
    return from_bits64(b)


# --- arithmetic --------------------------------------------------------------
def fadd(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a + b
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a + b
        return a if ta is float else b
    return P.rf_add(a, b)


def fneg(a):
    t = type(a)
    if t is RF:
        return P.rf_neg(a)
    return -a


def fsub(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a - b
    if ta is float or tb is float:
        if ta is float and tb is float:
            return a - b
        return a if ta is float else -b
    if tb is RF:
        return P.rf_add(a, P.rf_neg(b))
    return P.rf_add(a, -b)


def sign_of(a):
    """-1/0/1, forking"""
    t = type(a)
    if t is RF:
        return C.decide(a.num, a.fac, (NEG, ZER, POS)) - 1
    return (a > 0) - (a < 0)


def fmul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction and tb is Fraction:
        return a * b
    if ta is float or tb is float:
        if a != a or b != b:
            return NAN
        s = sign_of(a) * sign_of(b)
        return NAN if s == 0 else INF * s
    if ta is Fraction and a == 0 or tb is Fraction and b == 0:
        return F0
    return P.rf_mul(a, b)


def is_zero(b):
    t = type(b)
    if t is RF:
        if C.generic:
            flip, q = C.core(b.num, b.fac)
            if C.quick(q) & ZER:
                C.generic_ne.append((q, 5))
                C.add_fact(q, 5)
            return False
        return C.decide(b.num, b.fac, (5, ZER)) == 1
    return b == 0


def fdiv(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        if a != a or b != b:
            return NAN
        if tb is float:
            return NAN if ta is float else F0
        s = sign_of(b)
        return a * (s if s else 1)
    if is_zero(b):
        s = sign_of(a)
        return NAN if s == 0 else INF * s
    if ta is Fraction and tb is Fraction:
        return a / b
    if tb is Fraction:
        return P.rf_mul(a, 1 / b)
    inv = P.rf_inv(b)
    # 1/b makes every factor of b known non-zero on this path
    if ta is Fraction and a == 0:
        return F0
    return P.rf_mul(a, inv)


def frem(a, b):
    if type(a) is RF or type(b) is RF:
        raise Unsupported("frem on symbolic doubles")
    if type(a) is float or type(b) is float or b == 0:
        return NAN if not (type(b) is float and type(a) is Fraction and b == b) else a
    q = abs(a) // abs(b)
    r = abs(a) - q * abs(b)
    return r if a >= 0 else -r


def fabs(a):
    if type(a) is RF:
        if C.decide(a.num, a.fac, (6, NEG)) == 0:
            return a
        return P.rf_neg(a)
    return abs(a)


def signbit(a):
    if type(a) is RF:
        return C.decide(a.num, a.fac, (6, NEG)) == 1
    if type(a) is float:
        return math.copysign(1.0, a) < 0
    return a < 0


def copysign(a, b):
    r = fabs(a)
    return fneg(r) if signbit(b) else r


def fsqrt(a):
    t = type(a)
    if t is float:
        return a if a == a and a > 0 else NAN
    if t is Fraction:
        if a < 0:
            return NAN
        if a == 0:
            return F0
        n = a.numerator * a.denominator
        s, r = P.sq_int(n)
        if r == 1:
            return Fraction(s, a.denominator)
        v = P.get_var(("sqrt", P.const(r).id), "sqrt(%d)" % r, "sqrt", P.const(r))
        return P.norm(P.pscale(P.var_poly(v), s), a.denominator, {})
    for (b, r) in C.sqrts:
        if a.key == b.key or is_same(a, b):
            return r
    r = _fsqrt(a)
    C.sqrts.append((a, r))
    return r


def is_same(a, b):
    """equal as rational functions (normal form of the difference is zero)"""
    d = P.rf_add(a, P.rf_neg(b))
    return type(d) is Fraction and d == 0


def _fsqrt(a):
    if C.decide(a.num, a.fac, (6, NEG)) == 1:
        return NAN
    num = a.num
    num = P.pscale(num, a.den)
    den = a.den
    fac = {}
    for f, k in a.fac:
        fp = P.FACTORS[f]
        if k & 1:
            num = P.pmul(num, fp)
        h = (k + 1) // 2
        s = C.decide(fp, ((f, 2),), (NEG, 6))
        if s == 0 and h & 1:
            den = -den
        fac[f] = h
    c, fl = P.split_factors(num)
    out = P.ONE
    inside = P.ONE
    s, r = P.sq_int(abs(c))
    if c < 0:
        r = -r
    for f, k in fl:
        fp = P.FACTORS[f]
        if k & 1:
            inside = P.pmul(inside, fp)
        h = k // 2
        if h:
            e = fp
            if h & 1:
                if C.decide(fp, (), (6, NEG)) == 1:
                    e = P.pneg(e)
            out = P.pmul(out, P.ppow(e, h))
    out = P.pscale(out, s)
    inside = P.pscale(inside, r)
    if inside is not P.ONE:
        v = P.get_var(("sqrt", inside.id), "sqrt(%s)" % P.poly_str(inside), "sqrt", inside)
        out = P.pmul(out, P.var_poly(v))
    return P.norm(out, den, fac)


def _atom(kind, a):
    for (k, b, r) in C.atoms:
        if k == kind and (a.key == b.key or is_same(a, b)):
            return r
    r = _atom0(kind, a)
    C.atoms.append((kind, a, r))
    return r


def _atom0(kind, a):
    v = P.get_var((kind, a.key), "%s(%r)" % (kind, a), kind, a)
    return P.norm(P.var_poly(v), 1, {})


def _single_var(a):
    if type(a) is RF and a.den == 1 and not a.fac and len(a.num.d) == 1:
        (m, c), = a.num.d.items()
        if c == 1:
            l = list(P.mono_iter(m))
            if len(l) == 1 and l[0][1] == 1:
                return P.VARS[l[0][0]]
    return None


def fexp(a):
    t = type(a)
    if t is float:
        return a if a != a or a > 0 else F0
    if t is Fraction:
        if a == 0:
            return F1
        try:
            return from_float(math.exp(float(a)))
        except OverflowError:
            return INF
    # exp(sum of k_i ln(a_i)) = product of a_i^k_i
    if a.den == 1 and not a.fac:
        r = F1
        for m, c in a.num.d.items():
            l = list(P.mono_iter(m))
            if len(l) != 1 or l[0][1] != 1 or P.VARS[l[0][0]].kind != "ln":
                r = None
                break
            arg = P.VARS[l[0][0]].arg
            for _ in range(abs(c)):
                r = fmul(r, arg) if c > 0 else fdiv(r, arg)
        if r is not None:
            return r
    # exp(sum of c m ln(a)) = product of (a^m)^c
    if a.den == 1 and not a.fac and a.num.d:
        ok = True
        for m, c in a.num.d.items():
            if abs(c) > 8 or sum(k for v, k in P.mono_iter(m) if P.VARS[v].kind == "ln") != 1:
                ok = False
                break
        if ok and (len(a.num.d) > 1 or abs(next(iter(a.num.d.values()))) != 1):
            r = F1
            for m, c in a.num.d.items():
                e = _atom("exp", P.norm(P.mk({m: 1}), 1, {}))
                for _ in range(abs(c)):
                    r = fmul(r, e) if c > 0 else fdiv(r, e)
            return r
    return _atom("exp", a)


def fln(a):
    t = type(a)
    if t is float:
        return a if a == a and a > 0 else NAN
    s = sign_of(a)
    if s < 0:
        return NAN
    if s == 0:
        return -INF
    if t is Fraction:
        return F0 if a == 1 else from_float(math.log(float(a)))
    # the logarithm of a product of positive factors is the sum of their logarithms
    c, fl = P.split_factors(a.num)
    parts = [(f, k) for f, k in fl] + [(f, -k) for f, k in a.fac]
    if c > 0 and (len(parts) > 1 or c != 1 or a.den != 1 or any(k != 1 for _, k in parts)):
        if all(C.quick(P.FACTORS[f]) == POS for f, _ in parts):
            r = F0 if c == a.den else from_float(math.log(c / a.den))
            for f, k in parts:
                r = fadd(r, fmul(Fraction(k), fln(P.norm(P.FACTORS[f], 1, {}))))
            return r
    v = _single_var(a)
    if v is not None and v.kind == "exp":
        return v.arg
    return _atom("ln", a)


def round_kind(kind):
    def go(a):
        t = type(a)
        if t is float:
            return a
        if t is Fraction:
            if kind == "floor":
                return Fraction(a.numerator // a.denominator)
            if kind == "ceil":
                return Fraction(-((-a.numerator) // a.denominator))
            if kind == "trunc":
                q = abs(a.numerator) // a.denominator
                return Fraction(q if a >= 0 else -q)
            if kind == "round":
                q = (2 * abs(a.numerator) + a.denominator) // (2 * a.denominator)
                return Fraction(q if a >= 0 else -q)
            return Fraction(round(a))
        v = _single_var(a)
        if v is not None and v.kind in ("round", "floor", "ceil", "trunc"):
            return a
        # everything in terms of floor, so that different spellings of the same rounding meet
        if kind == "floor":
            if not a.fac:
                c = a.num.d.get(0, 0) // a.den
                if c:
                    return fadd(_atom("floor", fsub(a, Fraction(c))), Fraction(c))
            return _atom("floor", a)
        if kind == "ceil":
            return fneg(ffloor(fneg(a)))
        if signbit(a):
            return fneg(go(fneg(a)))
        return ffloor(a if kind == "trunc" else fadd(a, Fraction(1, 2)))
    return go


fround = round_kind("round")
ffloor = round_kind("floor")
fceil = round_kind("ceil")
ftrunc = round_kind("trunc")
frint = round_kind("rint")


def libm1(fn):
    def go(a):
        if type(a) is RF:
            raise Unsupported("libm %s on a symbolic double" % fn)
        try:
            return from_float(getattr(math, fn)(float(a)))
        except (ValueError, OverflowError):
            return NAN
    return go


def fpowi(a, n):
    if n >= 1 << 31:
        n -= 1 << 32
    r = F1
    for _ in range(abs(n)):
        r = fmul(r, a)
    return fdiv(F1, r) if n < 0 else r


def fpow(a, b):
    if type(b) is Fraction and b.denominator == 1 and abs(b) <= 16:
        return fpowi(a, int(b) & 0xFFFFFFFF)
    if type(b) is Fraction and b == Fraction(1, 2):
        return fsqrt(a)
    if type(a) is RF or type(b) is RF:
        # a^b = exp(b ln a) for a > 0
        return fexp(fmul(b, fln(a)))
    try:
        return from_float(math.pow(float(a), float(b)))
    except (ValueError, OverflowError):
        return NAN


def fhypot(a, b):
    return fsqrt(fadd(fmul(a, a), fmul(b, b)))


def fma(a, b, c):
    return fadd(fmul(a, b), c)


# --- comparisons -------------------------------------------------------------
def _cmp(a, b, parts, conc):
    """ordered comparison; parts[0] = mask of sign(a-b) giving True"""
    ta, tb = type(a), type(b)
    if ta is not RF and tb is not RF:
        return conc(a, b)
    if ta is float or tb is float:
        if a is not RF and ta is float:
            if a != a:
                return False
            return conc(a, F0)
        if b != b:
            return False
        return conc(F0, b)
    d = fsub(a, b)
    if type(d) is not RF:
        return conc(d, F0)
    return C.decide(d.num, d.fac, parts) == 0


def _nan(a):
    return type(a) is float and a != a


def fcmp_oeq(a, b):
    return _cmp(a, b, (ZER, 5), lambda x, y: x == y)


def fcmp_ogt(a, b):
    return _cmp(a, b, (POS, 3), lambda x, y: x > y)


def fcmp_oge(a, b):
    return _cmp(a, b, (6, NEG), lambda x, y: x >= y)


def fcmp_olt(a, b):
    return _cmp(a, b, (NEG, 6), lambda x, y: x < y)


def fcmp_ole(a, b):
    return _cmp(a, b, (3, POS), lambda x, y: x <= y)


def fcmp_one(a, b):
    if _nan(a) or _nan(b):
        return False
    return _cmp(a, b, (5, ZER), lambda x, y: x != y)


def fcmp_ord(a, b):
    return not (_nan(a) or _nan(b))


def fcmp_uno(a, b):
    return _nan(a) or _nan(b)


def _u(f):
    def go(a, b):
        if _nan(a) or _nan(b):
            return True
        return f(a, b)
    return go


fcmp_ueq = _u(fcmp_oeq)
fcmp_ugt = _u(fcmp_ogt)
fcmp_uge = _u(fcmp_oge)
fcmp_ult = _u(fcmp_olt)
fcmp_ule = _u(fcmp_ole)
fcmp_une = _u(fcmp_one)


def fcmp_true(a, b):
    return True


def fcmp_false(a, b):
    return False


def fmaxnum(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return b if fcmp_olt(a, b) else a


def fminnum(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return b if fcmp_ogt(a, b) else a


def fmaximum(a, b):
    return NAN if _nan(a) or _nan(b) else fmaxnum(a, b)


def fminimum(a, b):
    return NAN if _nan(a) or _nan(b) else fminnum(a, b)


def is_fpclass(a, mask):
    """llvm.is.fpclass"""
    r = 0
    if _nan(a):
        r = 3
    elif type(a) is float:
        r = 512 if a > 0 else 4
    elif type(a) is Fraction:
        r = 0x60 if a == 0 else (256 if a > 0 else 8)
    else:
        s = sign_of(a)
        r = 0x60 if s == 0 else (256 if s > 0 else 8)
    return bool(mask & r)


# --- symbolic integers (only used for dimensions converted to double) --------
class SymInt:
    """an integer held as an exact real symbol; no wrap-around is modelled"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @staticmethod
    def lift(o):
        if isinstance(o, SymInt):
            return o.v
        if isinstance(o, int):
            return Fraction(o)
        raise Unsupported("symbolic integer mixed with %r" % (type(o),))

    def __add__(self, o):
        if isinstance(o, int) and o >= 1 << 63:
            o -= 1 << 64
        return SymInt.wrap(fadd(self.v, SymInt.lift(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymInt.wrap(fsub(self.v, SymInt.lift(o)))

    def __rsub__(self, o):
        return SymInt.wrap(fsub(SymInt.lift(o), self.v))

    def __mul__(self, o):
        return SymInt.wrap(fmul(self.v, SymInt.lift(o)))

    __rmul__ = __mul__

    @staticmethod
    def wrap(v):
        if type(v) is Fraction:
            return int(v)
        return SymInt(v)

    def __and__(self, m):
        if m in (0xFFFFFFFFFFFFFFFF, 0xFFFFFFFF):
            return self
        raise Unsupported("bit operation on symbolic integer")

    __rand__ = __and__

    def __lshift__(self, k):
        return self * (1 << k)

    def __eq__(self, o):
        return fcmp_oeq(self.v, SymInt.lift(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return fcmp_olt(self.v, SymInt.lift(o))

    def __le__(self, o):
        return fcmp_ole(self.v, SymInt.lift(o))

    def __gt__(self, o):
        return fcmp_ogt(self.v, SymInt.lift(o))

    def __ge__(self, o):
        return fcmp_oge(self.v, SymInt.lift(o))

    def __hash__(self):
        return id(self)

    def _no(self, *a):
        raise Unsupported("operation on symbolic integer")

    __or__ = __ror__ = __xor__ = __rxor__ = __rshift__ = __index__ = __int__ = __floordiv__ = __mod__ = _no


def uitofp(a):
    if type(a) is SymInt:
        return a.v
    if type(a) is bool:
        a = int(a)
    return Fraction(a)


def fptoint(a, bits, signed):
    """saturating float -> int"""
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if _nan(a):
        return 0
    if type(a) is float:
        r = hi if a > 0 else lo
    elif type(a) is Fraction:
        q = abs(a.numerator) // a.denominator
        r = q if a >= 0 else -q
        r = max(lo, min(hi, r))
    else:
        v = _single_var(a)
        if v is not None and v.kind == "in":
            t = ftrunc(a)
            if type(t) is RF:
                return SymInt(t)
        if type(a) is RF:
            return SymInt(ftrunc(a))
    return r & ((1 << bits) - 1)
