"""Runtime of the symbolic interpreter: intrinsics, libc, harness API."""
import re
import struct
from fractions import Fraction

from . import dom as D
from . import poly as P
from .codegen import load_any, store_any, sx
from .dom import Unsupported, PathEnd, Violation, SymInt, POS, NEG, ZER
from .mem import Memory

INTERCEPT = re.compile(
    r"(9panicking|rust_begin_unwind|rust_panic|handle_alloc_error|18panic_bounds_check|capacity_overflow"
    r"|format_inner|__rustc.*__rust_(alloc|dealloc|realloc|alloc_zeroed|no_alloc_shim)|__rdl_(alloc|dealloc|realloc|alloc_zeroed))")


class RT:
    def __init__(self, mod, max_steps=20_000_000):
        self.mod = mod
        mod.rt = self
        self.mem = None
        self.steps = 0
        self.max_steps = max_steps
        self.ctx = None
        self.total_steps = 0

    def begin(self, ctx):
        self.mem = Memory(self.mod)
        self.ctx = ctx
        D.set_ctx(ctx)
        self.steps = 0

    def tick(self, n):
        self.steps += n
        if self.steps > self.max_steps:
            raise PathEnd("budget", "step budget exceeded")

    # ---------------------------------------------------------------
    def intercepts(self, name):
        return INTERCEPT.search(name) is not None

    def call_ptr(self, a):
        n = self.mod.fname_of_addr.get(a)
        if n is None:
            raise Unsupported("indirect call to %x" % a)
        n = self.mod.aliases.get(n, n)
        if n in self.mod.funcs and not self.intercepts(n):
            return self.mod.get(n)
        h = self.extern(n, None)
        return h if h else (lambda *a: None)

    def unreachable(self):
        raise Unsupported("reached unreachable")

    def inline_asm(self):
        pass

    def f32cast(self, a, op):
        if type(a) is P.RF:
            raise Unsupported("f32 conversion of a symbolic double")
        if op == "fptrunc":
            return D.from_float(struct.unpack("<f", struct.pack("<f", float(a)))[0])
        return a

    def bitcast(self, t, t2, v):
        p = self.mem.alloc(64)
        store_any(self.mod, self.mem, t, p, v)
        return load_any(self.mod, self.mem, t2, p)

    def cmpxchg(self, t, p, a, n):
        o = load_any(self.mod, self.mem, t, p)
        if o == a:
            store_any(self.mod, self.mem, t, p, n)
            return (o, 1)
        return (o, 0)

    def atomicrmw(self, op, t, p, v):
        o = load_any(self.mod, self.mem, t, p)
        w = 64 if t == "ptr" else t[1]
        m = (1 << w) - 1
        n = {"xchg": lambda: v, "add": lambda: (o + v) & m, "sub": lambda: (o - v) & m, "and": lambda: o & v,
             "or": lambda: o | v, "xor": lambda: o ^ v, "umax": lambda: max(o, v), "umin": lambda: min(o, v)}[op]()
        store_any(self.mod, self.mem, t, p, n)
        return o

    # ---------------------------------------------------------------
    def panic(self, name):
        def go(*a):
            raise PathEnd("panic", name)
        return go

    def label(self, p, n):
        return self.mem.bytes(p, n).decode()

    def extern(self, name, rty):
        """python callable for an external / intercepted function; None = no-op"""
        if self.intercepts(name):
            if "format_inner" in name:
                def fmt(sret, *a):
                    self.mem.st(sret, 8, 0)
                    self.mem.st(sret + 8, 8, 1)
                    self.mem.st(sret + 16, 8, 0)
                return fmt
            if "no_alloc_shim" in name:
                return None
            if "alloc_zeroed" in name:
                return lambda size, align: self.mem.alloc(size, True)
            if "realloc" in name:
                return lambda p, old, align, new: self.realloc(p, new)
            if "dealloc" in name:
                return lambda p, size, align: self.mem.free(p)
            if "__rust_alloc" in name or "__rdl_alloc" in name:
                return lambda size, align: self.mem.alloc(size)
            return self.panic(name)
        if name.startswith("sym_"):
            return getattr(self, "h_" + name[4:])
        if name.startswith("llvm."):
            return self.intrinsic(name, rty)
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h
        if name in LIBM1:
            return LIBM1[name]
        if name in ("pow", "hypot", "fmod", "fma", "fmax", "fmin", "copysign"):
            return {"pow": D.fpow, "hypot": D.fhypot, "fmod": D.frem, "fma": D.fma, "fmax": D.fmaxnum,
                    "fmin": D.fminnum, "copysign": D.copysign}[name]

        def missing(*a):
            raise Unsupported("external function " + name)
        return missing

    # --- libc
    def c_malloc(self, n):
        return self.mem.alloc(n)

    def c_calloc(self, a, b):
        return self.mem.alloc(a * b, True)

    def realloc(self, p, n):
        o = self.mem.objs[p >> 32]
        q = self.mem.alloc(n)
        self.mem.copy(q, p, min(n, o.size))
        self.mem.free(p)
        return q

    def c_realloc(self, p, n):
        return self.realloc(p, n) if p else self.mem.alloc(n)

    def c_free(self, p):
        self.mem.free(p)

    def c_posix_memalign(self, out, al, n):
        self.mem.st(out, 8, self.mem.alloc(n))
        return 0

    def c_memcpy(self, d, s, n):
        self.mem.copy(d, s, n)
        return d

    c_memmove = c_memcpy

    def c_memset(self, d, v, n):
        self.mem.memset(d, v & 255, n)
        return d

    def c_memcmp(self, a, b, n):
        x, y = self.mem.bytes(a, n), self.mem.bytes(b, n)
        return 0 if x == y else (1 if x > y else 0xFFFFFFFF)

    c_bcmp = c_memcmp

    def c_strlen(self, a):
        i = 0
        while self.mem.bytes(a + i, 1) != b"\0":
            i += 1
        return i

    def c_abort(self):
        raise PathEnd("panic", "abort")

    # --- harness API
    def h_f64(self):
        c = self.ctx
        v = P.get_var(("in", c.nsym), "x%d" % c.nsym)
        c.nsym += 1
        c.syms.append(("f", v.ix))
        return P.norm(P.var_poly(v), 1, {})

    def h_usize(self):
        c = self.ctx
        v = P.get_var(("in", c.nsym), "x%d" % c.nsym)
        c.nsym += 1
        c.syms.append(("n", v.ix))
        return SymInt(P.norm(P.var_poly(v), 1, {}))

    def h_param(self, i):
        return self.ctx.params[i] if i < len(self.ctx.params) else 0

    def h_choice(self, k):
        i = self.ctx.choose(k)
        self.ctx.syms.append(("c", i))
        return i

    def h_assume(self, b):
        if not b:
            raise PathEnd("assume")

    def h_assume_gt(self, a, b):
        self.ctx.assume_rf(D.fsub(a, b), POS)

    def h_assume_ge(self, a, b):
        self.ctx.assume_rf(D.fsub(a, b), POS | ZER)

    def h_assume_eq(self, a, b):
        self.ctx.assume_rf(D.fsub(a, b), ZER)

    def h_assume_ne(self, a, b):
        self.ctx.assume_rf(D.fsub(a, b), POS | NEG)

    def h_generic(self, on):
        self.ctx.generic = bool(on)

    def h_feasible(self):
        self.ctx.still_feasible()

    def h_known_pos(self, a):
        """is `a` syntactically known positive on this path (no query)"""
        return 0

    def h_check(self, b, p, n):
        l = self.label(p, n)
        self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
        if not b:
            raise Violation(l, "condition is false on this path")

    def h_check_eq(self, a, b, p, n):
        l = self.label(p, n)
        if type(a) is float or type(b) is float:
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            if type(a) is float and type(b) is float and a == b:
                return
            raise Violation(l, "%s vs %s" % (self.show(a), self.show(b)))
        d = D.fsub(a, b)
        self.ctx.check_rf(d, ZER, l, ("abs", d))

    def h_check_le(self, a, b, p, n):
        l = self.label(p, n)
        if D._nan(a) or D._nan(b):
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            raise Violation(l, "NaN in comparison")
        d = D.fsub(b, a)
        if D._nan(d):
            d = D.F0
        self.ctx.check_rf(d, POS | ZER, l, ("pos", D.fneg(d)))

    def h_check_lt(self, a, b, p, n):
        l = self.label(p, n)
        if D._nan(a) or D._nan(b):
            self.ctx.checks[l] = self.ctx.checks.get(l, 0) + 1
            raise Violation(l, "NaN in comparison")
        d = D.fsub(b, a)
        if D._nan(d):
            d = D.F0
        self.ctx.check_rf(d, POS, l, ("pos", D.fneg(d)))

    def h_check_ne(self, a, b, p, n):
        l = self.label(p, n)
        d = D.fsub(a, b)
        self.ctx.check_rf(d, POS | NEG, l, None)

    def h_observe(self, a, p, n):
        self.ctx.observed.append((self.label(p, n), a))

    def h_expect_panic(self, p, n):
        self.ctx.expect_panic = self.label(p, n)

    def show(self, a):
        return repr(a)[:80] if type(a) is P.RF else str(float(a))

    # --- intrinsics
    def intrinsic(self, name, rty):
        n = name[5:]
        if n.startswith(("lifetime", "experimental.noalias", "assume", "dbg", "invariant", "donothing",
                         "x86.sse2.pause", "prefetch", "sideeffect", "experimental.guard")):
            return None
        if n.startswith(("memcpy", "memmove")):
            return lambda d, s, k, v=0: self.mem.copy(d, s, k)
        if n.startswith("memset"):
            return lambda d, b, k, v=0: self.mem.memset(d, b, k)
        if n.startswith("trap") or n.startswith("debugtrap") or n.startswith("ubsantrap"):
            return self.panic("trap")
        if n.startswith("threadlocal.address"):
            return lambda p: p
        if n.startswith("is.constant"):
            return lambda a: 0
        if n.startswith("expect"):
            return lambda a, *r: a
        base = n.split(".")
        vec = rty is not None and type(rty) is tuple and rty[0] == "vec"
        f = self.scalar_intrinsic(n, base, rty[2] if vec else rty)
        if f is None:
            def missing(*a):
                raise Unsupported("intrinsic " + name)
            return missing
        if vec and not n.startswith("vector.reduce"):
            def vf(*a):
                k = max(len(x) for x in a if type(x) is tuple)
                return tuple(f(*[x[i] if type(x) is tuple else x for x in a]) for i in range(k))
            return vf
        return f

    def scalar_intrinsic(self, n, base, rty):
        b0 = base[0]
        F1 = {"sqrt": D.fsqrt, "fabs": D.fabs, "floor": D.ffloor, "ceil": D.fceil, "trunc": D.ftrunc,
              "round": D.fround, "rint": D.frint, "nearbyint": D.frint, "roundeven": D.frint, "exp": D.fexp,
              "log": D.fln, "canonicalize": lambda a: a}
        for k in ("cos", "sin", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "exp2", "log2", "log10"):
            F1[k] = D.libm1(k)
        if b0 in F1:
            return F1[b0]
        F2 = {"maxnum": D.fmaxnum, "minnum": D.fminnum, "maximum": D.fmaximum, "minimum": D.fminimum,
              "maximumnum": D.fmaxnum, "minimumnum": D.fminnum, "copysign": D.copysign, "pow": D.fpow,
              "powi": D.fpowi}
        if b0 in F2:
            return F2[b0]
        if b0 in ("fma", "fmuladd"):
            return D.fma
        if n.startswith("is.fpclass"):
            return D.is_fpclass
        w = None
        m = re.search(r"\.i(\d+)$", n)
        if m:
            w = int(m.group(1))
        if w is None:
            m = re.search(r"\.(?:v\d+)?i(\d+)", n)
            if m:
                w = int(m.group(1))
        M = (1 << w) - 1 if w else 0
        if n.startswith("fptosi.sat"):
            w = int(base[2][1:])
            return lambda a: D.fptoint(a, w, True)
        if n.startswith("fptoui.sat"):
            w = int(base[2][1:])
            return lambda a: D.fptoint(a, w, False)
        if "with.overflow" in n:
            op = base[0]

            def go(a, b):
                if type(a) is SymInt or type(b) is SymInt:
                    r = {"uadd": lambda: a + b, "sadd": lambda: a + b, "usub": lambda: a - b, "ssub": lambda: a - b,
                         "umul": lambda: a * b, "smul": lambda: a * b}[op]()
                    ov = 0
                    if op == "usub" and type(r) is SymInt:
                        ov = int(r < 0)
                    return (r, ov)
                if op[0] == "s":
                    a, b = sx(a, w), sx(b, w)
                r = a + b if op[1:] == "add" else a - b if op[1:] == "sub" else a * b
                if op[0] == "s":
                    ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
                else:
                    ov = not (0 <= r <= M)
                return (r & M, int(ov))
            return go
        if n.startswith("umax"):
            return lambda a, b: a if a > b else b
        if n.startswith("umin"):
            return lambda a, b: a if a < b else b
        if n.startswith("smax"):
            return lambda a, b: a if sx(a, w) > sx(b, w) else b
        if n.startswith("smin"):
            return lambda a, b: a if sx(a, w) < sx(b, w) else b
        if n.startswith("abs"):
            return lambda a, p=0: abs(sx(a, w)) & M
        if n.startswith("usub.sat"):
            return lambda a, b: a - b if a > b else 0
        if n.startswith("uadd.sat"):
            return lambda a, b: min(a + b, M)
        if n.startswith("ssub.sat"):
            return lambda a, b: max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, sx(a, w) - sx(b, w))) & M
        if n.startswith("sadd.sat"):
            return lambda a, b: max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, sx(a, w) + sx(b, w))) & M
        if n.startswith(("ucmp", "scmp")):
            rw = rty[1]
            sw = w
            if n.startswith("ucmp"):
                return lambda a, b: ((a > b) - (a < b)) & ((1 << rw) - 1)
            return lambda a, b: ((sx(a, sw) > sx(b, sw)) - (sx(a, sw) < sx(b, sw))) & ((1 << rw) - 1)
        if n.startswith("fshl"):
            return lambda a, b, c: ((((a << w) | b) << (c % w)) >> w) & M
        if n.startswith("fshr"):
            return lambda a, b, c: (((a << w) | b) >> (c % w)) & M
        if n.startswith("ctpop"):
            return lambda a: bin(a).count("1")
        if n.startswith("ctlz"):
            return lambda a, p=0: w - a.bit_length()
        if n.startswith("cttz"):
            return lambda a, p=0: (a & -a).bit_length() - 1 if a else w
        if n.startswith("bswap"):
            return lambda a: int.from_bytes(a.to_bytes(w // 8, "little"), "big")
        if n.startswith("bitreverse"):
            return lambda a: int(bin(a)[2:].zfill(w)[::-1], 2)
        if n.startswith("vector.reduce."):
            op = base[2]

            def red(*a):
                if op in ("fadd", "fmul"):
                    acc, v = a
                    for x in v:
                        acc = (D.fadd if op == "fadd" else D.fmul)(acc, x)
                    return acc
                v = a[0]
                acc = v[0]
                for x in v[1:]:
                    acc = {"add": lambda p, q: (p + q) & M, "mul": lambda p, q: (p * q) & M,
                           "and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q,
                           "umax": max, "umin": min, "fmax": D.fmaxnum, "fmin": D.fminnum}[op](acc, x)
                return acc
            return red
        if n.startswith("ptrmask"):
            return lambda a, m_: a & m_
        if n.startswith("objectsize"):
            return lambda *a: M
        return None


LIBM1 = {"exp": D.fexp, "log": D.fln, "sqrt": D.fsqrt, "fabs": D.fabs, "floor": D.ffloor, "ceil": D.fceil,
         "trunc": D.ftrunc, "round": D.fround, "rint": D.frint}
for _k in ("cos", "sin", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "exp2", "log2", "log10", "expm1",
           "log1p", "cbrt"):
    LIBM1.setdefault(_k, D.libm1(_k))
