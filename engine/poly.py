"""Exact value domain: integer polynomials and rational functions over symbols.

A *variable* is an index into VARS.  Besides the free inputs (`kind == "in"`)
there are algebraic atoms (`kind == "sqrt"`: s >= 0 and s**2 == arg poly),
transcendental atoms ("exp", "ln", ...) and integer-rounding atoms ("round",
"floor", ...).

A polynomial is an interned object with a dict {packed monomial: int coeff}.
Monomials are packed into one Python int, W bits per variable, so monomial
product is integer addition.
"""
from fractions import Fraction
from math import gcd, isqrt

W = 10
FIELD = (1 << W) - 1


class Var:
    __slots__ = ("ix", "name", "kind", "arg", "shift")

    def __init__(self, ix, name, kind, arg):
        self.ix = ix
        self.name = name
        self.kind = kind
        self.arg = arg
        self.shift = ix * W


VARS = []
_var_by_key = {}
SQRT_VARS = {}        # ix -> Poly (square)


def reset_all():
    VARS.clear()
    _var_by_key.clear()
    SQRT_VARS.clear()
    _intern.clear()
    _mul_memo.clear()
    _div_memo.clear()
    FACTORS.clear()
    _factor_by_poly.clear()
    _split_memo.clear()
    Poly.counter = 0
    _init_consts()


def get_var(key, name, kind="in", arg=None):
    v = _var_by_key.get(key)
    if v is None:
        v = Var(len(VARS), name, kind, arg)
        VARS.append(v)
        _var_by_key[key] = v
        if kind == "sqrt":
            SQRT_VARS[v.ix] = arg
    return v


class Poly:
    __slots__ = ("d", "id", "_vars", "_lead")
    counter = 0

    def __repr__(self):
        return poly_str(self)

    @property
    def vars(self):
        if self._vars is None:
            m = 0
            for k in self.d:
                m |= k
            s = []
            i = 0
            while m:
                if m & FIELD:
                    s.append(i)
                m >>= W
                i += 1
            self._vars = tuple(s)
        return self._vars

    @property
    def lead(self):
        if self._lead is None:
            self._lead = max(self.d) if self.d else 0
        return self._lead


_intern = {}


def mk(d):
    key = frozenset(d.items())
    p = _intern.get(key)
    if p is None:
        p = Poly()
        p.d = d
        Poly.counter += 1
        p.id = Poly.counter
        p._vars = None
        p._lead = None
        _intern[key] = p
    return p


ZERO = ONE = None


def _init_consts():
    global ZERO, ONE
    ZERO = mk({})
    ONE = mk({0: 1})


_mul_memo = {}
_div_memo = {}
FACTORS = []          # fid -> Poly (primitive, leading coeff > 0, not constant)
_factor_by_poly = {}
_split_memo = {}
_init_consts()


def const(c):
    return mk({0: c}) if c else ZERO


def var_poly(v):
    return mk({1 << v.shift: 1})


def mono_iter(m):
    i = 0
    while m:
        e = m & FIELD
        if e:
            yield i, e
        m >>= W
        i += 1


def poly_str(p):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items(), reverse=True):
        t = "*".join((VARS[i].name if e == 1 else "%s^%d" % (VARS[i].name, e)) for i, e in mono_iter(m))
        out.append(("%d*%s" % (c, t)) if t else str(c))
    return " + ".join(out)


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m, 0) + c
        if x:
            d[m] = x
        else:
            del d[m]
    return mk(d)


def pneg(a):
    return mk({m: -c for m, c in a.d.items()})


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return mk({m: c * k for m, c in a.d.items()})


def _raw_mul(da, db):
    if len(da) > len(db):
        da, db = db, da
    d = {}
    get = d.get
    items = list(db.items())
    for m1, c1 in da.items():
        for m2, c2 in items:
            m = m1 + m2
            d[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}


def _reduce(d):
    """replace s^2 by its definition for every sqrt atom"""
    while True:
        hit = None
        allm = 0
        for m in d:
            allm |= m
        if not allm:
            return d
        for ix in SQRT_VARS:
            sh = ix * W
            if (allm >> sh) & (FIELD & ~1):
                hit = ix
        if hit is None:
            return d
        sh = hit * W
        arg = SQRT_VARS[hit].d
        out = {}
        bins = {}
        for m, c in d.items():
            e = (m >> sh) & FIELD
            if e < 2:
                out[m] = out.get(m, 0) + c
            else:
                h = e >> 1
                base = m - ((h << 1) << sh)
                b = bins.setdefault(h, {})
                b[base] = b.get(base, 0) + c
        for h, b in bins.items():
            pw = {0: 1}
            for _ in range(h):
                pw = _raw_mul(pw, arg)
            for m, c in _raw_mul(b, pw).items():
                out[m] = out.get(m, 0) + c
        d = {m: c for m, c in out.items() if c}


def pmul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if not a.d or not b.d:
        return ZERO
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mul_memo.get(key)
    if r is None:
        d = _raw_mul(a.d, b.d)
        if SQRT_VARS:
            d = _reduce(d)
        r = mk(d)
        _mul_memo[key] = r
    return r


def ppow(a, k):
    r = ONE
    for _ in range(k):
        r = pmul(r, a)
    return r


def content(p):
    g = 0
    for c in p.d.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def mono_content(p):
    it = iter(p.d)
    try:
        g = next(it)
    except StopIteration:
        return 0
    for m in it:
        if not g:
            break
        ng = 0
        sh = 0
        x, y = g, m
        while x and y:
            e = min(x & FIELD, y & FIELD)
            ng |= e << sh
            sh += W
            x >>= W
            y >>= W
        g = ng
    return g


def _mono_divides(a, b):
    """a | b"""
    while a:
        if (a & FIELD) > (b & FIELD):
            return False
        a >>= W
        b >>= W
    return True


def pdiv_exact(a, b):
    """a / b as integer polynomials (formal), or None"""
    if not a.d:
        return ZERO
    if b is ONE:
        return a
    key = (a.id, b.id)
    r = _div_memo.get(key, 0)
    if r != 0:
        return r
    r = _pdiv_exact(a, b)
    _div_memo[key] = r
    return r


def _pdiv_exact(a, b):
    if len(b.d) == 1:
        (bm, bc), = b.d.items()
        q = {}
        for m, c in a.d.items():
            if c % bc or not _mono_divides(bm, m):
                return None
            q[m - bm] = c // bc
        return mk(q)
    # quick rejection: variables of b must occur in a
    sa = set(a.vars)
    for v in b.vars:
        if v not in sa:
            return None
    bl = b.lead
    bc = b.d[bl]
    # trailing term must divide as well
    bt = min(b.d)
    at = min(a.d)
    if not _mono_divides(bt, at) or a.d[at] % b.d[bt]:
        return None
    rem = dict(a.d)
    q = {}
    bit = list(b.d.items())
    import heapq
    heap = [-m for m in rem]
    heapq.heapify(heap)
    limit = 4 * len(a.d) + 200
    while rem:
        while True:
            m = -heap[0]
            if m in rem:
                break
            heapq.heappop(heap)
        c = rem[m]
        if c % bc or not _mono_divides(bl, m):
            return None
        qm = m - bl
        qc = c // bc
        q[qm] = qc
        if len(q) > limit:
            return None
        for bm, bcc in bit:
            k = qm + bm
            x = rem.get(k)
            if x is None:
                rem[k] = -qc * bcc
                heapq.heappush(heap, -k)
            else:
                x -= qc * bcc
                if x:
                    rem[k] = x
                else:
                    del rem[k]
    return mk(q)


def primitive(p):
    """p = c * q with q primitive and positive leading coeff; returns (c, q)"""
    c = content(p)
    if p.d[p.lead] < 0:
        c = -c
    if c == 1:
        return 1, p
    return c, mk({m: x // c for m, x in p.d.items()})


def factor_id(p):
    f = _factor_by_poly.get(p.id)
    if f is None:
        f = len(FACTORS)
        FACTORS.append(p)
        _factor_by_poly[p.id] = f
    return f


def _sym_factor(p):
    """square-free-ish factorisation of a primitive poly through sympy; list of (Poly, power)"""
    vs = p.vars
    if len(p.d) < 2 or len(p.d) > 40:
        return [(p, 1)]
    deg = 0
    for m in p.d:
        deg = max(deg, sum(e for _, e in mono_iter(m)))
    if deg < 2 or deg > 12:
        return [(p, 1)]
    # sqrt atoms: formal factorisation over Z is still an identity
    from sympy.polys.rings import ring
    from sympy import ZZ
    R, *gens = ring(["v%d" % v for v in vs], ZZ)
    pos = {v: i for i, v in enumerate(vs)}
    dd = {}
    for m, c in p.d.items():
        t = [0] * len(vs)
        for i, e in mono_iter(m):
            t[pos[i]] = e
        dd[tuple(t)] = ZZ(c)
    pe = R.from_dict(dd)
    if len(p.d) <= 14:
        c, fl = pe.factor_list()
    else:
        c, fl = pe.sqf_list()
    res = []
    chk = int(c)
    for f, k in fl:
        d = {}
        for t, co in f.terms():
            m = 0
            for i, e in enumerate(t):
                m += e << (vs[i] * W)
            d[m] = int(co)
        cc, q = primitive(mk(d))
        chk *= cc ** k
        res.append((q, k))
    if chk != 1:
        return [(p, 1)]
    return res


def split_factors(p):
    """p -> (int content with sign, [(fid, power)])  (formal identity)"""
    r = _split_memo.get(p.id)
    if r is not None:
        return r
    c, q = primitive(p)
    out = {}
    mc = mono_content(q)
    if mc:
        q = mk({m - mc: x for m, x in q.d.items()})
        for i, e in mono_iter(mc):
            f = factor_id(mk({1 << (i * W): 1}))
            out[f] = out.get(f, 0) + e
    if q is not ONE:
        for f, k in _sym_factor(q):
            fid = factor_id(f)
            out[fid] = out.get(fid, 0) + k
    r = (c, sorted(out.items()))
    _split_memo[p.id] = r
    return r


def poly_sqrt(p):
    """exact formal square root of a primitive poly (leading coeff > 0) or None"""
    if p is ONE:
        return ONE
    c, fl = split_factors(p)
    if c != 1:
        return None
    r = ONE
    for f, k in fl:
        if k & 1:
            return None
        r = pmul(r, ppow(FACTORS[f], k // 2))
    return r


# ---------------------------------------------------------------------------
class RF:
    """rational function num / (den * prod factor^pow), num not constant-only
    unless factors are present"""
    __slots__ = ("num", "den", "fac")

    def __init__(self, num, den, fac):
        self.num = num
        self.den = den
        self.fac = fac

    def __repr__(self):
        s = "(%s)" % poly_str(self.num)
        if self.den != 1 or self.fac:
            s += "/(%d%s)" % (self.den, "".join("*(%s)^%d" % (poly_str(FACTORS[f]), k) for f, k in self.fac))
        return s

    @property
    def key(self):
        return (self.num.id, self.den, self.fac)


def norm(num, den, fac):
    """-> Fraction or RF; den may be negative; fac: dict fid->pow"""
    if not num.d:
        return Fraction(0)
    nf = []
    for f in sorted(fac):
        k = fac[f]
        fp = FACTORS[f]
        while k > 0:
            q = pdiv_exact(num, fp)
            if q is None:
                break
            num = q
            k -= 1
        if k:
            nf.append((f, k))
    g = gcd(content(num), den)
    if den < 0:
        g = -g
    if g != 1:
        num = mk({m: c // g for m, c in num.d.items()})
        den //= g
    if not nf:
        if len(num.d) == 1 and 0 in num.d:
            return Fraction(num.d[0], den)
    return RF(num, den, tuple(nf))


def to_rf(v):
    if type(v) is RF:
        return v
    v = Fraction(v)
    return RF(const(v.numerator), v.denominator, ())


def rf_add(a, b):
    a = to_rf(a)
    b = to_rf(b)
    if a.fac == b.fac:
        fac = dict(a.fac)
        na, nb = a.num, b.num
    else:
        fa, fb = dict(a.fac), dict(b.fac)
        fac = dict(fa)
        na, nb = a.num, b.num
        for f, k in fb.items():
            fac[f] = max(fac.get(f, 0), k)
        for f, k in fac.items():
            x = k - fa.get(f, 0)
            if x:
                na = pmul(na, ppow(FACTORS[f], x))
            x = k - fb.get(f, 0)
            if x:
                nb = pmul(nb, ppow(FACTORS[f], x))
    g = gcd(a.den, b.den)
    den = a.den // g * b.den
    return norm(padd(pscale(na, den // a.den), pscale(nb, den // b.den)), den, fac)


def rf_neg(a):
    return RF(pneg(a.num), a.den, a.fac)


def _cancel(num, fac):
    out = {}
    for f, k in fac:
        fp = FACTORS[f]
        while k:
            q = pdiv_exact(num, fp)
            if q is None:
                break
            num = q
            k -= 1
        if k:
            out[f] = k
    return num, out


def rf_mul(a, b):
    a = to_rf(a)
    b = to_rf(b)
    na, fb = _cancel(a.num, b.fac)
    nb, fa = _cancel(b.num, a.fac)
    for f, k in fb.items():
        fa[f] = fa.get(f, 0) + k
    return norm(pmul(na, nb), a.den * b.den, fa)


def rf_inv(a):
    """caller has established a.num != 0"""
    a = to_rf(a)
    c, fl = split_factors(a.num)
    num = const(a.den)
    for f, k in a.fac:
        num = pmul(num, ppow(FACTORS[f], k))
    fac = {}
    den = c
    for f, k in fl:
        fp = FACTORS[f]
        # rationalise a bare sqrt atom:  1/s = s / s^2
        if len(fp.d) == 1:
            ix = fp.vars[0]
            if ix in SQRT_VARS:
                if k & 1:
                    num = pmul(num, fp)
                cc, fl2 = split_factors(SQRT_VARS[ix])
                h = (k + 1) // 2
                den *= cc ** h
                for f2, k2 in fl2:
                    fac[f2] = fac.get(f2, 0) + k2 * h
                continue
        fac[f] = fac.get(f, 0) + k
    return norm(num, den, fac)


def cross_num(a):
    """sign-carrying polynomial of a: num * prod odd factors"""
    p = a.num
    for f, k in a.fac:
        if k & 1:
            p = pmul(p, FACTORS[f])
    return p


def sq_int(n):
    """n>0 -> (s, r): n = s^2 * r, r square-free w.r.t. small primes"""
    s = 1
    r0 = isqrt(n)
    if r0 * r0 == n:
        return r0, 1
    p = 2
    while p < 2000 and p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    r0 = isqrt(n)
    if r0 * r0 == n:
        return s * r0, 1
    return s, n
