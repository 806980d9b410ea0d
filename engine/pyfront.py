"""Second front end: /repo/python_ai executed from its source with symbolic numbers.

The modules are imported from the working tree (no byte code read or written).  Every number that
reaches them is a `Sym`, which carries an exact value of the same domain as the IR interpreter; a
comparison asks the domain for a sign and forks the path.  `float`, `np`, `math` of the loaded modules are
replaced by versions that know `Sym`; numpy itself runs on object arrays."""
import builtins
import importlib
import math
import operator
import os
import sys
from fractions import Fraction

import numpy as np

from . import dom as D
from . import poly as P
from .dom import Unsupported, PathEnd, Violation, Inconclusive, POS, NEG, ZER

PYROOT = "/repo/python_ai"
CONTROL = (Unsupported, PathEnd, Violation, Inconclusive)
RTREF = [None]


def lift(x):
    if type(x) is Sym:
        return x.v
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (builtins.float, np.floating)):
        return D.from_float(builtins.float(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def tick():
    RTREF[0].tick(1)


def _bin(f):
    def go(a, b):
        w = lift(b)
        if w is None:
            return NotImplemented
        tick()
        return Sym(f(a.v, w))

    def rgo(a, b):
        w = lift(b)
        if w is None:
            return NotImplemented
        tick()
        return Sym(f(w, a.v))
    return go, rgo


def _cmp(f):
    def go(a, b):
        w = lift(b)
        if w is None:
            return NotImplemented
        tick()
        return bool(f(a.v, w))
    return go


def _pow(a, b):
    if type(a) is Fraction and type(b) is Fraction and b.denominator == 1 and abs(b) < 64:
        return a ** int(b)
    return D.fpow(a, b)


class Sym:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    __add__, __radd__ = _bin(D.fadd)
    __sub__, __rsub__ = _bin(D.fsub)
    __mul__, __rmul__ = _bin(D.fmul)
    __truediv__, __rtruediv__ = _bin(D.fdiv)
    __pow__, __rpow__ = _bin(_pow)
    __mod__, __rmod__ = _bin(lambda a, b: D.fsub(a, D.fmul(D.ffloor(D.fdiv(a, b)), b)))
    __floordiv__, __rfloordiv__ = _bin(lambda a, b: D.ffloor(D.fdiv(a, b)))
    __lt__ = _cmp(D.fcmp_olt)
    __le__ = _cmp(D.fcmp_ole)
    __gt__ = _cmp(D.fcmp_ogt)
    __ge__ = _cmp(D.fcmp_oge)
    __eq__ = _cmp(D.fcmp_oeq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __neg__(self):
        return Sym(D.fneg(self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(D.fabs(self.v))

    def __bool__(self):
        return not self.__eq__(0)

    def __hash__(self):
        return id(self)

    def __float__(self):
        if type(self.v) is P.RF:
            raise Unsupported("conversion of a symbolic number to float")
        return builtins.float(self.v)

    def __int__(self):
        raise Unsupported("conversion of a symbolic number to int")

    __index__ = __int__

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym %s>" % (repr(self.v)[:60],)

    # numpy's object loops call these
    def sqrt(self):
        return Sym(D.fsqrt(self.v))

    def exp(self):
        return Sym(D.fexp(self.v))

    def log(self):
        return Sym(D.fln(self.v))

    def floor(self):
        return Sym(D.ffloor(self.v))

    def ceil(self):
        return Sym(D.fceil(self.v))

    def rint(self):
        return Sym(D.frint(self.v))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def fabs(self):
        return abs(self)

    def maximum(self, o):
        return self if self >= o else o

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def item(self):
        return self

    def is_integer(self):
        return self == Sym(D.ffloor(self.v))

    @property
    def real(self):
        return self

    def copy(self):
        return self


def issym(x):
    return type(x) is Sym or (isinstance(x, np.ndarray) and x.dtype == object)


def elementwise(name, f):
    def go(x, *a, **k):
        if type(x) is Sym:
            return f(x)
        if issym(x) or isinstance(x, (list, tuple)) and any(type(e) is Sym for e in x):
            x = np.array(x, dtype=object)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i] if type(x[i]) is Sym else Sym(lift(x[i])))
            return out
        return getattr(np, name)(x, *a, **k)
    return go


def obj(x):
    return np.array(x, dtype=object)


def wrap1(f, name):
    def go(x, *a):
        if type(x) is Sym:
            return f(x)
        return getattr(math, name)(x, *a)
    return go


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is Sym or isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return c is Sym or issubclass(c, builtins.float)


class float_(builtins.float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return builtins.float(x)


class LinalgProxy:
    """numpy.linalg on symbolic matrices: the textbook definition, sizes 1 and 2 in closed form; a
    harness may announce a decomposition (`announce`) of a matrix of any size"""
    known = None          # (matrix entries, eigenvalues ascending, eigenvectors)

    LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not issym(x):
            return np.linalg.norm(x, ord, axis, keepdims)
        if axis is not None or keepdims or ord not in (None, 2) or x.ndim != 1:
            raise Unsupported("norm variant")
        s = Sym(D.F0)
        for e in x:
            s = s + e * e
        return s.sqrt()

    def eigvalsh(self, a, UPLO="L"):
        return self.eigh(a, UPLO)[0]

    def eigh(self, a, UPLO="L"):
        if not issym(a):
            return np.linalg.eigh(a, UPLO)
        n = a.shape[0]
        k = LinalgProxy.known
        if k is not None and len(k[1]) == n:
            api = RTREF[0].api
            for i in range(n):
                for j in range(i + 1):
                    api.check_eq(a[i][j], k[0][i][j], "the matrix decomposed is the constraint matrix at the point")
            return obj(k[1]), obj(k[2])
        if n == 1:
            return obj([a[0][0]]), obj([[Sym(D.F1)]])
        if n == 2:
            p, q, r = a[0][0], a[1][0], a[1][1]
            if q == 0:
                one, zer = Sym(D.F1), Sym(D.F0)
                if p <= r:
                    return obj([p, r]), obj([[one, zer], [zer, one]])
                return obj([r, p]), obj([[zer, one], [one, zer]])
            h = ((p - r) * (p - r) / 4 + q * q).sqrt()
            m = (p + r) / 2
            l1, l2 = m - h, m + h
            d = ((l2 - p) * (l2 - p) + q * q).sqrt()
            return obj([l1, l2]), obj([[(l2 - p) / d, q / d], [-q / d, (l2 - p) / d]])
        raise Unsupported("eigenvalues of a %dx%d matrix" % (n, n))

    def det(self, a):
        if not issym(a):
            return np.linalg.det(a)
        n = a.shape[0]
        if n == 1:
            return a[0][0]
        if n == 2:
            return a[0][0] * a[1][1] - a[0][1] * a[1][0]
        raise Unsupported("determinant")

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def go(*a, **k):
            if any(issym(x) for x in a):
                raise Unsupported("numpy.linalg." + n)
            return f(*a, **k)
        return go


def clean_dtype(k):
    k.pop("dtype", None)
    return k


class NpProxy:
    def __init__(self):
        self.linalg = LinalgProxy()
        self.inf, self.nan, self.pi, self.newaxis = np.inf, np.nan, np.pi, None
        self.float64 = float_
        self.ndarray = np.ndarray
        for n, f in (("sqrt", lambda x: x.sqrt()), ("exp", lambda x: x.exp()), ("log", lambda x: x.log()),
                     ("abs", abs), ("absolute", abs), ("fabs", abs), ("square", lambda x: x * x),
                     ("floor", lambda x: x.floor()), ("ceil", lambda x: x.ceil()), ("rint", lambda x: x.rint()),
                     ("negative", lambda x: -x), ("sign", lambda x: Sym(D.F1) if x > 0 else Sym(-D.F1) if x < 0 else Sym(D.F0))):
            setattr(self, n, elementwise(n, f))

    def zeros(self, *a, **k):
        return obj(np.zeros(*a, **clean_dtype(k)))

    def ones(self, *a, **k):
        return obj(np.ones(*a, **clean_dtype(k)))

    def eye(self, *a, **k):
        return obj(np.eye(*a, **clean_dtype(k)))

    identity = eye

    def empty(self, *a, **k):
        return obj(np.zeros(*a, **clean_dtype(k)))

    def full(self, shape, v, **k):
        r = np.empty(shape, dtype=object)
        r.fill(v)
        return r

    def zeros_like(self, x, **k):
        return obj(np.zeros(np.shape(x)))

    def ones_like(self, x, **k):
        return obj(np.ones(np.shape(x)))

    empty_like = zeros_like

    def array(self, x, *a, **k):
        k.pop("dtype", None)
        return np.array(x, dtype=object, **k)

    def asarray(self, x, *a, **k):
        return x if isinstance(x, np.ndarray) and x.dtype == object else np.array(x, dtype=object)

    ascontiguousarray = asarray

    def min(self, x, *a, **k):
        if a or k:
            raise Unsupported("min variant")
        r = None
        for e in np.ravel(x):
            if r is None or e < r:
                r = e
        return r

    amin = min

    def max(self, x, *a, **k):
        if a or k:
            raise Unsupported("max variant")
        r = None
        for e in np.ravel(x):
            if r is None or e > r:
                r = e
        return r

    amax = max

    def argmin(self, x, *a, **k):
        b = 0
        x = np.ravel(x)
        for i in range(1, len(x)):
            if x[i] < x[b]:
                b = i
        return b

    def argmax(self, x, *a, **k):
        b = 0
        x = np.ravel(x)
        for i in range(1, len(x)):
            if x[i] > x[b]:
                b = i
        return b

    def maximum(self, a, b):
        if np.ndim(a) or np.ndim(b):
            return np.frompyfunc(lambda p, q: p if p > q else q, 2, 1)(a, b)
        return a if a > b else b

    def minimum(self, a, b):
        if np.ndim(a) or np.ndim(b):
            return np.frompyfunc(lambda p, q: p if p < q else q, 2, 1)(a, b)
        return a if a < b else b

    def hypot(self, a, b):
        return np.frompyfunc(lambda p, q: (p * p + q * q).sqrt() if type(p) is Sym or type(q) is Sym else math.hypot(p, q), 2, 1)(a, b)

    def power(self, a, b):
        return a ** b

    def clip(self, x, lo, hi):
        x = x if lo is None else self.maximum(x, lo)
        return x if hi is None else self.minimum(x, hi)

    def isclose(self, *a, **k):
        raise Unsupported("isclose")

    allclose = isclose

    def where(self, c, *a):
        if not a:
            return np.where(c)
        if np.ndim(c):
            return np.where(np.asarray(c, dtype=bool), *a)
        return a[0] if c else a[1]

    def isfinite(self, x):
        if type(x) is Sym:
            return type(x.v) is not builtins.float
        return np.isfinite(x)

    def isnan(self, x):
        if type(x) is Sym:
            return D._nan(x.v)
        return np.isnan(x)

    def isscalar(self, x):
        return type(x) is Sym or np.isscalar(x)

    def einsum(self, spec, *a):
        return np.einsum(spec, *a, optimize=False) if not any(issym(x) for x in a) else self._einsum(spec, a)

    def _einsum(self, spec, ops):
        ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec, None)
        ins = ins.split(",")
        if out is None:
            allc = "".join(ins)
            out = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        dim = {}
        for s, o in zip(ins, ops):
            for c, n in zip(s, np.shape(o)):
                dim[c] = n
        names = sorted(dim)
        res = np.empty([dim[c] for c in out], dtype=object)
        for i in np.ndindex(res.shape):
            res[i] = Sym(D.F0)
        for idx in np.ndindex(*[dim[c] for c in names]):
            at = dict(zip(names, idx))
            t = None
            for s, o in zip(ins, ops):
                e = o[tuple(at[c] for c in s)]
                t = e if t is None else t * e
            res[tuple(at[c] for c in out)] += t
        return res if out else res[()]

    def __getattr__(self, n):
        return getattr(np, n)


class MathProxy:
    def __getattr__(self, n):
        f = {"sqrt": lambda x: x.sqrt(), "exp": lambda x: x.exp(), "log": lambda x: x.log(), "fabs": abs,
             "floor": lambda x: x.floor(), "ceil": lambda x: x.ceil(),
             "isfinite": lambda x: type(x.v) is not builtins.float, "isnan": lambda x: D._nan(x.v),
             "isinf": lambda x: type(x.v) is builtins.float and not D._nan(x.v)}.get(n)
        if f is not None:
            return wrap1(f, n)
        if n == "pow":
            return lambda a, b: a ** b
        if n == "hypot":
            return lambda *a: sum((x * x for x in a), Sym(D.F0)).sqrt()
        g = getattr(math, n)
        if not callable(g):
            return g

        def go(*a):
            if any(issym(x) for x in a):
                raise Unsupported("math." + n)
            return g(*a)
        return go


NP = NpProxy()
MATH = MathProxy()


def load():
    """the package of the working tree, from source"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent"
    if PYROOT not in sys.path:
        sys.path.insert(0, PYROOT)
    pkg = importlib.import_module("ellalgo")
    for m in ("cutting_plane", "ell", "ell_calc", "oracles.lmi_oracle", "oracles.profit_oracle"):
        importlib.import_module("ellalgo." + m)
    return pkg


def symbolise():
    """replace numbers and libraries in the globals of every module of the package"""
    by_id = {}
    for n in ("sqrt", "exp", "log", "fabs", "hypot", "pow", "floor", "ceil", "isfinite", "isnan", "isinf"):
        by_id[id(getattr(math, n))] = getattr(MATH, n)
    for n in dir(np):
        o = getattr(np, n, None)
        if callable(o) and n in NpProxy.__dict__ or n in NP.__dict__:
            by_id[id(o)] = getattr(NP, n)
    by_id[id(np.linalg)] = NP.linalg
    for n in ("norm", "eigh", "eigvalsh", "det"):
        by_id[id(getattr(np.linalg, n))] = getattr(NP.linalg, n)
    for name, m in list(sys.modules.items()):
        if name == "ellalgo" or name.startswith("ellalgo."):
            g = m.__dict__
            for k, v in list(g.items()):
                if v is np:
                    g[k] = NP
                elif v is math:
                    g[k] = MATH
                elif id(v) in by_id and not k.startswith("__"):
                    g[k] = by_id[id(v)]
            g["float"] = float_


class SymApi:
    """what a harness entry sees (the native twin is in pyreplay.py)"""
    symbolic = True

    def __init__(self, rt):
        self.rt = rt

    @property
    def ctx(self):
        return self.rt.ctx

    def real(self):
        c = self.ctx
        v = P.get_var(("in", c.nsym), "x%d" % c.nsym)
        c.nsym += 1
        c.syms.append(("f", v.ix))
        return Sym(P.norm(P.var_poly(v), 1, {}))

    def const(self, x):
        return Sym(lift(x))

    def array(self, x):
        return np.array(x, dtype=object)

    def param(self, i):
        return self.ctx.params[i] if i < len(self.ctx.params) else 0

    def choice(self, k):
        i = self.ctx.choose(k)
        self.ctx.syms.append(("c", i))
        return i

    def assume(self, b):
        if not b:
            raise PathEnd("assume")

    def assume_gt(self, a, b):
        self.ctx.assume_rf(D.fsub(lift(a), lift(b)), POS)

    def assume_ge(self, a, b):
        self.ctx.assume_rf(D.fsub(lift(a), lift(b)), POS | ZER)

    def assume_eq(self, a, b):
        self.ctx.assume_rf(D.fsub(lift(a), lift(b)), ZER)

    def generic(self, on):
        self.ctx.generic = bool(on)

    def check(self, b, l):
        self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
        if not b:
            raise Violation(l, "condition is false on this path")

    def _num(self, a, l):
        v = lift(a)
        if v is None:
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            raise Violation(l, "not a number: %s" % type(a).__name__)
        return v

    def check_eq(self, a, b, l, mag=0):
        a, b = self._num(a, l), self._num(b, l)
        if type(a) is float or type(b) is float:
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            if type(a) is float and type(b) is float and a == b:
                return
            raise Violation(l, "infinite or NaN")
        d = D.fsub(a, b)
        self.ctx.check_rf(d, ZER, l, ("abs", d))

    def _order(self, a, b, l, mask):
        a, b = self._num(a, l), self._num(b, l)
        if D._nan(a) or D._nan(b):
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            raise Violation(l, "NaN in comparison")
        d = D.fsub(b, a)
        if D._nan(d):
            d = D.F0
        self.ctx.check_rf(d, mask, l, ("pos", D.fneg(d)))

    def check_le(self, a, b, l):
        self._order(a, b, l, POS | ZER)

    def check_lt(self, a, b, l):
        self._order(a, b, l, POS)

    def observe(self, a, l):
        self.ctx.observed.append((l, lift(a)))

    def expect_raise(self, l):
        self.ctx.expect_panic = l

    def eig(self, mat, vals, vecs):
        LinalgProxy.known = (mat, vals, vecs)


class PyRT:
    def __init__(self, max_steps):
        self.steps = 0
        self.max_steps = max_steps
        self.ctx = None
        self.api = SymApi(self)
        RTREF[0] = self

    def begin(self, ctx):
        self.ctx = ctx
        D.set_ctx(ctx)
        self.steps = 0
        LinalgProxy.known = None

    def tick(self, n):
        self.steps += n
        if self.steps > self.max_steps:
            raise PathEnd("budget", "step budget exceeded")


class PyMod:
    def __init__(self, rt):
        self.rt = rt
        self.executed = set()
        try:
            self.pkg = load()
            symbolise()
        except Exception as e:
            raise RuntimeError("the Python package does not load: %r" % e)
        import pyharness
        self.h = pyharness

    def get(self, entry):
        f = getattr(self.h, entry)

        def prof(fr, ev, arg):
            if ev == "call":
                c = fr.f_code
                if c.co_filename.startswith(PYROOT):
                    self.executed.add("python:%s:%s" % (os.path.relpath(c.co_filename, PYROOT), c.co_qualname))
                    self.rt.steps += 1
                    if self.rt.steps > self.rt.max_steps:
                        raise PathEnd("budget", "step budget exceeded")

        def go():
            sys.setprofile(prof)
            try:
                f(self.rt.api, self.pkg)
            except CONTROL:
                raise
            except RecursionError:
                raise
            except Exception as e:
                x = e
                while x is not None:
                    if isinstance(x, CONTROL):
                        raise x
                    x = x.__cause__ or x.__context__
                raise PathEnd("panic", "%s: %s" % (type(e).__name__, e))
            finally:
                sys.setprofile(None)
        return go
