"""One LLVM function -> one Python function."""
import re
from fractions import Fraction

from . import dom as D
from .dom import Unsupported
from .ir import Cur, lex, unq, LIT, CE

FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
BIN_I = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
BIN_F = {"fadd": "fadd", "fsub": "fsub", "fmul": "fmul", "fdiv": "fdiv", "frem": "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi",
         "fpext", "fptrunc", "addrspacecast", "ptrtoaddr"}


def sx(v, bits):
    if type(v) is int or type(v) is bool:
        return v - (1 << bits) if v >> (bits - 1) else int(v)
    return v          # symbolic integers are non-negative


def scmp_bits(v, bits):
    """signed view for comparisons; symbolic double bits support sign tests"""
    if type(v) is D.BitsOf:
        return SignedBits(v.v)
    return sx(v, bits)


class SignedBits:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        if o == 0:
            return D.signbit(self.v)
        raise Unsupported("signed comparison of symbolic double bits")

    def __gt__(self, o):
        if o == -1:
            return not D.signbit(self.v)
        raise Unsupported("signed comparison of symbolic double bits")

    def __ge__(self, o):
        return not self.__lt__(o)

    def __le__(self, o):
        return not self.__gt__(o)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic double bits")

    __hash__ = None


def sdiv(a, b, bits):
    a, b = sx(a, bits), sx(b, bits)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q & ((1 << bits) - 1)


def srem(a, b, bits):
    a, b = sx(a, bits), sx(b, bits)
    r = abs(a) % abs(b)
    if a < 0:
        r = -r
    return r & ((1 << bits) - 1)


def zero_value(t):
    if t in ("double", "float"):
        return D.F0
    if t == "ptr" or t[0] == "i":
        return 0
    if t[0] in ("arr", "vec"):
        return tuple(zero_value(t[2]) for _ in range(t[1]))
    if t[0] == "struct":
        return tuple(zero_value(e) for e in t[1])
    raise Unsupported("zero of %r" % (t,))


def setv(agg, path, v):
    l = list(agg)
    if len(path) == 1:
        l[path[0]] = v
    else:
        l[path[0]] = setv(l[path[0]], path[1:], v)
    return tuple(l)


def load_any(mod, mem, t, a):
    if t == "double":
        return mem.ldf(a)
    if t == "ptr":
        return mem.ldi(a, 8)
    if t == "float":
        import struct
        v = mem.ldi(a, 4)
        return D.from_float(struct.unpack("<f", struct.pack("<I", v))[0])
    if t[0] == "i":
        n = (t[1] + 7) // 8
        v = mem.ldi(a, n)
        if type(v) is int and t[1] % 8:
            v &= (1 << t[1]) - 1
        return v
    offs = mod.offsets(t)
    return tuple(load_any(mod, mem, mod.elem(t, i), a + o) for i, o in enumerate(offs))


def store_any(mod, mem, t, a, v):
    if t == "double":
        mem.st(a, 8, v)
    elif t == "ptr":
        mem.st(a, 8, v)
    elif t == "float":
        import struct
        mem.st(a, 4, struct.unpack("<I", struct.pack("<f", float(v)))[0])
    elif t[0] == "i":
        if type(v) is D.BitsOf:
            v = v.v
        elif type(v) is bool:
            v = int(v)
        mem.st(a, (t[1] + 7) // 8, v)
    else:
        offs = mod.offsets(t)
        for i, o in enumerate(offs):
            store_any(mod, mem, mod.elem(t, i), a + o, v[i])


class FnCompiler:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.hdr, self.body = mod.funcs[name]
        self.env = {}
        self.names = {}
        self.kc = 0
        self.blocks = []       # (label, [lines], terminator handled)
        self.types = {}

    def loc(self, n):
        v = self.names.get(n)
        if v is None:
            v = "v%d" % len(self.names)
            self.names[n] = v
        return v

    def K(self, obj):
        n = "k%d" % self.kc
        self.kc += 1
        self.env[n] = obj
        return n

    def const_py(self, t, c):
        k = c[0]
        if k == "int":
            return str(c[1])
        if k == "f":
            return self.K(c[1])
        if k in ("undef", "zero"):
            z = zero_value(t)
            return str(z) if type(z) is int else self.K(z)
        if k == "agg":
            return "(" + "".join(self.const_py(et, ev) + "," for et, ev in c[1]) + ")"
        if k == "bytes":
            return self.K(tuple(c[1]))
        raise Unsupported("const " + k)

    def val(self, c, t):
        c.skip_attrs()
        k, v = c.peek()
        if k == "loc":
            c.next()
            return self.loc(v)
        if k == "meta":
            c.next()
            return "0"
        return self.const_py(t, self.mod.parse_const(c, t))

    # -----------------------------------------------------------------
    def compile(self):
        hdr = self.hdr
        i = hdr.index("@")
        c = Cur(lex(hdr[i:]), self.mod)
        c.next()
        c.expect("(")
        params = []
        n_unnamed = 0
        if not c.accept(")"):
            while True:
                if c.peek()[0] == "dots":
                    c.next()
                    c.expect(")")
                    break
                c.type()
                # skip attributes
                nm = None
                while True:
                    k, v = c.peek()
                    if k == "loc":
                        nm = v
                        c.next()
                        break
                    if v in (",", ")"):
                        break
                    if v == "align" and c.peek(1)[0] == "num":
                        c.next()
                        c.next()
                    else:
                        c.skip_paren_attr()
                if nm is None:
                    nm = "%%%d" % n_unnamed
                if nm[1:].isdigit():
                    n_unnamed = int(nm[1:]) + 1
                params.append(self.loc(nm))
                if c.accept(")"):
                    break
                c.expect(",")
        # split into blocks
        blocks = []
        cur = None
        lines = self.join_lines(self.body)
        for l in lines:
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l.startswith(" "):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = (unq(m.group(1)), [])
                    blocks.append(cur)
                    continue
                raise Unsupported("label? " + l)
            if cur is None:
                cur = ("%entry", [])
                blocks.append(cur)
            cur[1].append(l)
        idx = {b[0]: i for i, b in enumerate(blocks)}
        if blocks and blocks[0][0] == "%entry":
            idx[str(n_unnamed)] = 0
        self.idx = idx
        # phis
        self.phis = []
        toks = []
        for lab, ls in blocks:
            ph = []
            rest = []
            for l in ls:
                if " = phi " in l:
                    ph.append(self.parse_phi(l))
                else:
                    rest.append(l)
            self.phis.append(ph)
            toks.append(rest)
        self.labels = [b[0] for b in blocks]
        self.entry_alias = str(n_unnamed)
        out = []
        for bi, rest in enumerate(toks):
            self.bi = bi
            py = []
            for l in rest:
                self.instr(l, py)
            out.append((py, len(rest)))
        fn = self.emit(params, out)
        env = self.env
        env["D"] = D
        env.update({k: getattr(D, k) for k in dir(D) if k.startswith("f") and callable(getattr(D, k))})
        env["sx"] = sx
        env["scb"] = scmp_bits
        env["sdiv"] = sdiv
        env["srem"] = srem
        env["setv"] = setv
        env["M"] = self.mod
        env["RT"] = self.mod.rt
        env["load_any"] = load_any
        env["store_any"] = store_any
        env["Unsupported"] = Unsupported
        code = compile(fn, "<%s>" % self.name, "exec")
        exec(code, env)
        return env["fn"]

    def join_lines(self, body):
        out = []
        i = 0
        while i < len(body):
            l = body[i]
            if re.match(r'\s+switch ', l) and "]" not in l:
                while "]" not in body[i]:
                    i += 1
                    l += " " + body[i].strip()
            out.append(l)
            i += 1
        return out

    def parse_phi(self, l):
        c = Cur(lex(l), self.mod)
        dst = self.loc(c.next()[1])
        c.expect("=")
        c.next()
        while c.peek()[1] in FMF:
            c.next()
        t = c.type()
        inc = []
        while True:
            c.expect("[")
            v = self.val(c, t)
            c.expect(",")
            b = unq(c.next()[1][1:])
            c.expect("]")
            inc.append((v, b))
            if not c.accept(","):
                break
            if not c.at("["):
                break
        return dst, inc

    def goto(self, label):
        """python lines for jumping from current block to label"""
        ti = self.idx[label]
        src = self.labels[self.bi]
        asg = []
        for dst, inc in self.phis[ti]:
            for v, b in inc:
                if b == src or (self.bi == 0 and src == "%entry" and b == self.entry_alias):
                    if v != dst:
                        asg.append((dst, v))
                    break
            else:
                raise Unsupported("phi without edge")
        lines = []
        if asg:
            lines.append("%s = %s" % (", ".join(a for a, _ in asg), ", ".join(v for _, v in asg)))
        lines.append("b = %d" % ti)
        lines.append("continue")
        return lines

    def emit(self, params, blocks):
        L = ["def fn(%s):" % ", ".join(params)]
        for p in params:
            pass
        L.append("  MEM = RT.mem")
        L.append("  b = 0")
        L.append("  while True:")

        def tree(lo, hi, ind):
            pad = "  " * ind
            if hi - lo == 1:
                py, n = blocks[lo]
                L.append(pad + "RT.tick(%d)" % n)
                for x in py:
                    L.append(pad + x)
                return
            mid = (lo + hi) // 2
            L.append(pad + "if b < %d:" % mid)
            tree(lo, mid, ind + 1)
            L.append(pad + "else:")
            tree(mid, hi, ind + 1)

        tree(0, len(blocks), 2)
        return "\n".join(L)

    # -----------------------------------------------------------------
    def instr(self, l, py):
        # strip trailing metadata attachments: handled by just not reading to the end
        c = Cur(lex(l), self.mod)
        dst = None
        if c.peek()[0] == "loc" and c.peek(1)[1] == "=":
            dst = self.loc(c.next()[1])
            c.next()
        op = c.next()[1]
        h = getattr(self, "i_" + op, None)
        if h is not None:
            h(c, dst, py)
            return
        if op in BIN_I:
            self.bin_i(op, c, dst, py)
        elif op in BIN_F:
            self.bin_f(op, c, dst, py)
        elif op in CASTS:
            self.cast(op, c, dst, py)
        elif op in ("tail", "musttail", "notail"):
            c.next()
            self.i_call(c, dst, py)
        else:
            py.append("raise Unsupported(%r)" % ("instruction " + op))

    def flags(self, c, names):
        while c.peek()[1] in names:
            c.next()

    def bin_i(self, op, c, dst, py):
        self.flags(c, {"nuw", "nsw", "exact", "disjoint"})
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        b = self.val(c, t)
        if t[0] == "vec":
            e = self.int_expr(op, t[2], "x", "y")
            py.append("%s = tuple(%s for x, y in zip(%s, %s))" % (dst, e, a, b))
        else:
            py.append("%s = %s" % (dst, self.int_expr(op, t, a, b)))

    def int_expr(self, op, t, a, b):
        w = t[1]
        m = (1 << w) - 1
        if op == "add":
            return "(%s + %s) & %d" % (a, b, m)
        if op == "sub":
            return "(%s - %s) & %d" % (a, b, m)
        if op == "mul":
            return "(%s * %s) & %d" % (a, b, m)
        if op == "udiv":
            return "%s // %s" % (a, b)
        if op == "urem":
            return "%s %% %s" % (a, b)
        if op in ("sdiv", "srem"):
            return "%s(%s, %s, %d)" % (op, a, b, w)
        if op == "shl":
            return "(%s << %s) & %d" % (a, b, m)
        if op == "lshr":
            return "%s >> %s" % (a, b)
        if op == "ashr":
            return "(sx(%s, %d) >> %s) & %d" % (a, w, b, m)
        return "%s %s %s" % (a, {"and": "&", "or": "|", "xor": "^"}[op], b)

    def bin_f(self, op, c, dst, py):
        self.flags(c, FMF)
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        b = self.val(c, t)
        if t[0] == "vec":
            py.append("%s = tuple(%s(x, y) for x, y in zip(%s, %s))" % (dst, BIN_F[op], a, b))
        else:
            py.append("%s = %s(%s, %s)" % (dst, BIN_F[op], a, b))

    def i_fneg(self, c, dst, py):
        self.flags(c, FMF)
        t = c.type()
        a = self.val(c, t)
        if t[0] == "vec":
            py.append("%s = tuple(fneg(x) for x in %s)" % (dst, a))
        else:
            py.append("%s = fneg(%s)" % (dst, a))

    def i_icmp(self, c, dst, py):
        self.flags(c, {"samesign"})
        pred = c.next()[1]
        self.flags(c, {"samesign"})
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        b = self.val(c, t)
        et = t[2] if t[0] == "vec" else t
        w = 64 if et == "ptr" else et[1]
        o = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<=",
             "sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}[pred]

        def ex(x, y):
            if pred[0] == "s":
                if w == 64:
                    return "scb(%s, 64) %s scb(%s, 64)" % (x, o, y)
                return "sx(%s, %d) %s sx(%s, %d)" % (x, w, o, y, w)
            return "%s %s %s" % (x, o, y)
        if t[0] == "vec":
            py.append("%s = tuple(%s for x, y in zip(%s, %s))" % (dst, ex("x", "y"), a, b))
        else:
            py.append("%s = %s" % (dst, ex(a, b)))

    def i_fcmp(self, c, dst, py):
        self.flags(c, FMF)
        pred = c.next()[1]
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        b = self.val(c, t)
        if t[0] == "vec":
            py.append("%s = tuple(D.fcmp_%s(x, y) for x, y in zip(%s, %s))" % (dst, pred, a, b))
        else:
            py.append("%s = D.fcmp_%s(%s, %s)" % (dst, pred, a, b))

    def i_select(self, c, dst, py):
        self.flags(c, FMF)
        ct = c.type()
        k = self.val(c, ct)
        c.expect(",")
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        c.type()
        b = self.val(c, t)
        if ct[0] == "vec":
            py.append("%s = tuple(x if k else y for k, x, y in zip(%s, %s, %s))" % (dst, k, a, b))
        else:
            py.append("%s = %s if %s else %s" % (dst, a, k, b))

    def i_freeze(self, c, dst, py):
        t = c.type()
        py.append("%s = %s" % (dst, self.val(c, t)))

    def cast(self, op, c, dst, py):
        self.flags(c, {"nuw", "nsw", "nneg"} | FMF)
        t = c.type()
        a = self.val(c, t)
        c.expect("to")
        t2 = c.type()
        if t[0] == "vec" and op != "bitcast":
            e = self.cast_expr(op, "x", t[2], t2[2])
            py.append("%s = tuple(%s for x in %s)" % (dst, e, a))
            return
        py.append("%s = %s" % (dst, self.cast_expr(op, a, t, t2)))

    def cast_expr(self, op, a, t, t2):
        if op == "zext":
            return "int(%s)" % a if t[1] == 1 else a
        if op == "sext":
            return "sx(%s, %d) & %d" % (a, t[1], (1 << t2[1]) - 1)
        if op == "trunc":
            return "%s & %d" % (a, (1 << t2[1]) - 1)
        if op in ("ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"):
            return a
        if op == "uitofp":
            return "D.uitofp(%s)" % a
        if op == "sitofp":
            return "D.uitofp(sx(%s, %d))" % (a, t[1])
        if op == "fptoui":
            return "D.fptoint(%s, %d, False)" % (a, t2[1])
        if op == "fptosi":
            return "D.fptoint(%s, %d, True)" % (a, t2[1])
        if op in ("fpext", "fptrunc"):
            return "RT.f32cast(%s, %r)" % (a, op)
        if op == "bitcast":
            if t == t2:
                return a
            if t == "double" and t2 == ("i", 64):
                return "D.to_bits(%s)" % a
            if t2 == "double" and t == ("i", 64):
                return "D.of_bits(%s)" % a
            # through memory
            return "RT.bitcast(%s, %s, %s)" % (self.K(t), self.K(t2), a)
        raise Unsupported("cast " + op)

    # --- memory
    def i_alloca(self, c, dst, py):
        self.flags(c, {"inalloca"})
        t = c.type()
        n = "1"
        if c.accept(","):
            if c.is_type():
                t2 = c.type()
                n = self.val(c, t2)
        s, _ = self.mod.size_align(t)
        py.append("%s = MEM.alloc(%d * %s)" % (dst, s, n))

    def i_load(self, c, dst, py):
        self.flags(c, {"atomic", "volatile"})
        t = c.type()
        c.expect(",")
        c.type()
        p = self.val(c, "ptr")
        if t == "double":
            py.append("%s = MEM.ldf(%s)" % (dst, p))
        elif t == "ptr" or t == ("i", 64):
            py.append("%s = MEM.ldi(%s, 8)" % (dst, p))
        elif t[0] == "i" and t[1] % 8 == 0:
            py.append("%s = MEM.ldi(%s, %d)" % (dst, p, t[1] // 8))
        else:
            py.append("%s = load_any(M, MEM, %s, %s)" % (dst, self.K(t), p))

    def i_store(self, c, dst, py):
        self.flags(c, {"atomic", "volatile"})
        t = c.type()
        v = self.val(c, t)
        c.expect(",")
        c.type()
        p = self.val(c, "ptr")
        if t == "double" or t == "ptr":
            py.append("MEM.st(%s, 8, %s)" % (p, v))
        else:
            py.append("store_any(M, MEM, %s, %s, %s)" % (self.K(t), p, v))

    def i_getelementptr(self, c, dst, py):
        self.flags(c, {"inbounds", "nuw", "nusw"})
        t = c.type()
        c.expect(",")
        c.type()
        base = self.val(c, "ptr")
        const = 0
        parts = []
        first = True
        while c.accept(","):
            if not c.is_type():
                break
            it = c.type()
            k, v = c.peek()
            if k == "num":
                c.next()
                iv = int(v)
                ex = None
            else:
                ex = self.val(c, it)
                iv = None
            if first:
                s = self.mod.size_align(t)[0]
                first = False
            elif t[0] == "struct":
                const += self.mod.offsets(t)[iv]
                t = t[1][iv]
                continue
            else:
                t = t[2]
                s = self.mod.size_align(t)[0]
            if ex is None:
                const += iv * s
            else:
                if it[1] != 64:
                    ex = "sx(%s, %d)" % (ex, it[1])
                parts.append("%s * %d" % (ex, s) if s != 1 else ex)
        e = " + ".join([base] + parts)
        if const:
            e += " + %d" % const
        py.append("%s = (%s) & 0xFFFFFFFFFFFFFFFF" % (dst, e))

    def i_fence(self, c, dst, py):
        pass

    def i_cmpxchg(self, c, dst, py):
        self.flags(c, {"weak", "volatile"})
        c.type()
        p = self.val(c, "ptr")
        c.expect(",")
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        c.type()
        n = self.val(c, t)
        py.append("%s = RT.cmpxchg(%s, %s, %s, %s)" % (dst, self.K(t), p, a, n))

    def i_atomicrmw(self, c, dst, py):
        self.flags(c, {"volatile"})
        op = c.next()[1]
        c.type()
        p = self.val(c, "ptr")
        c.expect(",")
        t = c.type()
        v = self.val(c, t)
        py.append("%s = RT.atomicrmw(%r, %s, %s, %s)" % (dst, op, self.K(t), p, v))

    # --- aggregates
    def path(self, c):
        r = []
        while c.accept(","):
            k, v = c.peek()
            if k != "num":
                break
            c.next()
            r.append(int(v))
        return r

    def i_extractvalue(self, c, dst, py):
        t = c.type()
        a = self.val(c, t)
        py.append("%s = %s%s" % (dst, a, "".join("[%d]" % i for i in self.path(c))))

    def i_insertvalue(self, c, dst, py):
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        t2 = c.type()
        v = self.val(c, t2)
        p = self.path(c)
        py.append("%s = setv(%s, %s, %s)" % (dst, a, tuple(p), v))

    def i_extractelement(self, c, dst, py):
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        t2 = c.type()
        i = self.val(c, t2)
        py.append("%s = %s[%s]" % (dst, a, i))

    def i_insertelement(self, c, dst, py):
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        t2 = c.type()
        v = self.val(c, t2)
        c.expect(",")
        t3 = c.type()
        i = self.val(c, t3)
        py.append("%s = setv(%s, (%s,), %s)" % (dst, a, i, v))

    def i_shufflevector(self, c, dst, py):
        t = c.type()
        a = self.val(c, t)
        c.expect(",")
        c.type()
        b = self.val(c, t)
        c.expect(",")
        t3 = c.type()
        m = self.val(c, t3)
        py.append("%s = tuple((%s + %s)[i] for i in %s)" % (dst, a, b, m))

    # --- control
    def i_br(self, c, dst, py):
        if c.accept("label"):
            py += self.goto(unq(c.next()[1][1:]))
            return
        t = c.type()
        k = self.val(c, t)
        c.expect(",")
        c.expect("label")
        a = unq(c.next()[1][1:])
        c.expect(",")
        c.expect("label")
        b = unq(c.next()[1][1:])
        py.append("if %s:" % k)
        py += ["  " + x for x in self.goto(a)]
        py += self.goto(b)

    def i_switch(self, c, dst, py):
        t = c.type()
        v = self.val(c, t)
        c.expect(",")
        c.expect("label")
        d = unq(c.next()[1][1:])
        c.expect("[")
        while not c.accept("]"):
            c.type()
            k = self.val(c, t)
            c.expect(",")
            c.expect("label")
            l = unq(c.next()[1][1:])
            py.append("if %s == %s:" % (v, k))
            py += ["  " + x for x in self.goto(l)]
        py += self.goto(d)

    def i_ret(self, c, dst, py):
        t = c.type()
        if t == "void":
            py.append("return None")
        else:
            py.append("return %s" % self.val(c, t))

    def i_unreachable(self, c, dst, py):
        py.append("RT.unreachable()")

    def i_call(self, c, dst, py):
        self.flags(c, FMF)
        # calling convention / return attributes
        while not c.is_type():
            k, v = c.peek()
            if k == "id" and c.peek(1)[1] == "(":
                c.skip_paren_attr()
            elif v == "align" and c.peek(1)[0] == "num":
                c.next()
                c.next()
            else:
                c.next()
        rt = c.type()
        if c.at("("):
            c.skip_balanced() if hasattr(c, "skip_balanced") else self.skip_bal(c)
        k, v = c.peek()
        if k == "id" and v == "asm":
            py.append("RT.inline_asm()")
            if dst:
                py.append("%s = 0" % dst)
            return
        if k == "glob":
            c.next()
            name = unq(v[1:])
            callee = None
        elif k == "loc":
            c.next()
            callee = self.loc(v)
            name = None
        else:
            callee = str(self.mod.parse_const(c, "ptr")[1])
            name = None
        c.expect("(")
        args = []
        if not c.accept(")"):
            while True:
                t = c.type()
                if t == "metadata":
                    # skip metadata operand
                    depth = 0
                    while not (depth == 0 and c.peek()[1] in (",", ")")):
                        x = c.next()[1]
                        if x == "(":
                            depth += 1
                        elif x == ")":
                            depth -= 1
                    args.append("0")
                else:
                    args.append(self.val(c, t))
                if c.accept(")"):
                    break
                c.expect(",")
        asg = "%s = " % dst if dst else ""
        if name is None:
            py.append("%sRT.call_ptr(%s)(%s)" % (asg, callee, ", ".join(args)))
            return
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs and not self.mod.rt.intercepts(name):
            fn = self.K(Lazy(self.mod, name))
            py.append("%s%s.f(%s)" % (asg, fn, ", ".join(args)))
            return
        h = self.mod.rt.extern(name, rt)
        if h is None:
            return
        fn = self.K(h)
        py.append("%s%s(%s)" % (asg, fn, ", ".join(args)))

    def skip_bal(self, c):
        depth = 0
        while True:
            _, v = c.next()
            if v == "(":
                depth += 1
            elif v == ")":
                depth -= 1
                if depth == 0:
                    return

    def i_invoke(self, c, dst, py):
        py.append("raise Unsupported('invoke')")


class Lazy:
    __slots__ = ("mod", "name", "f")

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        self.f = self._first

    def _first(self, *a):
        g = self.mod.get(self.name)
        self.f = g
        return g(*a)


def compile_function(mod, name):
    mod.executed.add(name)
    return FnCompiler(mod, name).compile()
