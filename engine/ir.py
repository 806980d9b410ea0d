"""LLVM IR (text) -> Python code.  Functions are indexed when the module is
loaded and translated the first time they are called."""
import re
from fractions import Fraction

from . import dom as D
from .dom import Unsupported

IDENT = r'[-a-zA-Z$._0-9]+'
TOKEN = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|\{|"(?:[^"\\]|\\.)*"|))
 | (?P<attr>\#\d+)
 | (?P<num>[+-](?:inf|q?nan)|-?\d+\.\d+(?:e[+-]?\d+)?|f?0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def lex(s):
    if "/*" in s:
        s = re.sub(r'/\*.*?\*/', ' ', s)
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOKEN.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("lex: %r" % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


PRIM = {"void", "double", "float", "half", "ptr", "label", "metadata", "x86_fp80", "fp128", "token", "bfloat"}
CE = {"getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "add", "sub", "mul", "xor", "ptrtoaddr",
      "addrspacecast", "shl"}
LIT = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none"}


def unq(s):
    return s[1:-1] if s.startswith('"') else s


class Cur:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s

    def accept(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported("expected %r at %r" % (s, self.t[self.i:self.i + 6]))

    def done(self):
        return self.i >= len(self.t)

    # --- types
    def is_type(self):
        k, v = self.peek()
        if k == "id":
            return v in PRIM or re.fullmatch(r"i\d+", v) is not None
        if k == "loc":
            return unq(v[1:]) in self.mod.types
        return v in ("[", "{", "<")

    def type(self):
        k, v = self.next()
        if k == "id":
            if v in PRIM:
                t = v
                if v == "ptr" and self.at("addrspace"):
                    self.skip_paren_attr()
            elif v[0] == "i" and v[1:].isdigit():
                t = ("i", int(v[1:]))
            else:
                raise Unsupported("type %r" % v)
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif v == "{":
            t = ("struct", tuple(self.tlist("}")), False)
        elif v == "<":
            if self.at("{"):
                self.next()
                l = self.tlist("}")
                self.expect(">")
                t = ("struct", tuple(l), True)
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif k == "loc":
            t = self.mod.named_type(unq(v[1:]))
        else:
            raise Unsupported("type at %r" % (v,))
        return t

    def tlist(self, close):
        l = []
        if self.accept(close):
            return l
        while True:
            l.append(self.type())
            if self.accept(close):
                return l
            self.expect(",")

    def skip_paren_attr(self):
        self.next()
        if self.at("("):
            depth = 0
            while True:
                _, v = self.next()
                if v == "(":
                    depth += 1
                elif v == ")":
                    depth -= 1
                    if depth == 0:
                        return

    def is_operand(self):
        k, v = self.peek()
        if k in ("loc", "glob", "num"):
            return True
        if k == "str":
            return v.startswith("c")
        if k == "id":
            return v in LIT or v in CE or v == "asm" or v == "splat"
        return v in ("[", "{", "<")

    def skip_attrs(self):
        """skip attributes before an operand"""
        while not self.is_operand():
            k, v = self.peek()
            if k == "meta":
                return
            if k == "id" or k == "attr" or k == "str":
                if v == "align" and self.peek(1)[0] == "num":
                    self.next()
                    self.next()
                else:
                    self.skip_paren_attr()
            else:
                raise Unsupported("attr at %r" % (self.t[self.i:self.i + 5],))


def mangle(n):
    return n


class Const:
    """constant value tree: ('int',v) ('f',Fraction/float) ('ptr',addr) ('agg',[(type,const)]) ('bytes',b) ('zero',) ('undef',)"""


def parse_float(s, ty):
    if s[1:] in ("inf", "nan", "qnan"):
        return D.NAN if s[1:] != "inf" else D.INF if s[0] == "+" else -D.INF
    if s.startswith("f0x"):
        s = s[1:]
    if s.startswith("0x"):
        if s[2] in "KMLHR":
            raise Unsupported("float literal " + s)
        return D.from_bits64(int(s, 16))
    return Fraction(float(s)) if ty != "x" else None


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode()
            i += 1
    return bytes(out)


class Module:
    def __init__(self, path):
        self.types = {}
        self._type_src = {}
        self.funcs = {}          # name -> (header line, [body lines])
        self.decls = set()
        self.globals = {}        # name -> source text after '='
        self.aliases = {}
        self.compiled = {}
        self.gaddr = {}
        self.faddr = {}
        self.fname_of_addr = {}
        self.next_id = 16
        self.init_objs = {}      # obj id -> Obj (pristine)
        self.executed = set()
        self.load(path)

    def load(self, path):
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                name = unq(m.group(1))
                body = []
                j = i + 1
                while lines[j] != "}":
                    body.append(lines[j])
                    j += 1
                self.funcs[name] = (l, body)
                i = j + 1
                continue
            if l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add(unq(m.group(1)))
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = unq(m.group(1))
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split("@")[0]):
                    self.aliases[nm] = unq(re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest).group(1))
                else:
                    self.globals[nm] = rest
            elif l.startswith("%") and " = type " in l:
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                self._type_src[unq(m.group(1))] = m.group(2)
                self.types[unq(m.group(1))] = None
            i += 1

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            t = Cur(lex(self._type_src[n]), self).type()
            self.types[n] = t
        return t

    # --- layout
    def size_align(self, t):
        if t == "ptr" or t == "double":
            return 8, 8
        if t == "float":
            return 4, 4
        if t == "half":
            return 2, 2
        if t == "x86_fp80":
            return 16, 16
        if t[0] == "i":
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return (b + a - 1) // a * a, a
        if t[0] == "arr":
            s, a = self.size_align(t[2])
            return s * t[1], a
        if t[0] == "vec":
            if t[2] == ("i", 1):
                b = (t[1] + 7) // 8
                return b, b
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if t[0] == "struct":
            o, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Unsupported("size of %r" % (t,))

    def offsets(self, t):
        if t[0] == "arr" or t[0] == "vec":
            s, _ = self.size_align(t[2])
            return [i * s for i in range(t[1])]
        o = 0
        r = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            r.append(o)
            o += s
        return r

    def elem(self, t, i):
        return t[2] if t[0] in ("arr", "vec") else t[1][i]

    # --- constants
    def parse_const(self, c, t):
        k, v = c.peek()
        if k == "id":
            if v in ("undef", "poison"):
                c.next()
                return ("undef",)
            if v == "zeroinitializer":
                c.next()
                return ("zero",)
            if v in ("true", "false"):
                c.next()
                return ("int", 1 if v == "true" else 0)
            if v in ("null", "none"):
                c.next()
                return ("int", 0)
            if v == "splat":
                c.next()
                c.expect("(")
                et = c.type()
                e = self.parse_const(c, et)
                c.expect(")")
                return ("agg", [(et, e)] * t[1])
            return ("int", self.const_expr(c))
        if k == "num":
            c.next()
            if t in ("double", "float", "half"):
                return ("f", parse_float(v, t))
            return ("int", int(v) & ((1 << t[1]) - 1))
        if k == "glob":
            c.next()
            return ("int", self.addr_of(unq(v[1:])))
        if k == "str":
            c.next()
            return ("bytes", unescape(v[2:-1]))
        if v in ("[", "{", "<"):
            c.next()
            close = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and c.at("{"):
                c.next()
                close = "}"
                packed = True
            l = []
            if not c.accept(close):
                while True:
                    et = c.type()
                    l.append((et, self.parse_const(c, et)))
                    if c.accept(close):
                        break
                    c.expect(",")
            if packed:
                c.expect(">")
            return ("agg", l)
        raise Unsupported("const %r" % (c.t[c.i:c.i + 5],))

    def const_expr(self, c):
        op = c.next()[1]
        while c.peek()[0] == "id" and not c.at("("):
            if c.peek(1)[1] == "(" and c.peek()[1] == "inrange":
                c.skip_paren_attr()
            else:
                c.next()
        c.expect("(")
        if op == "getelementptr":
            t = c.type()
            c.expect(",")
            c.type()
            base = self.parse_const(c, "ptr")[1]
            idx = []
            while c.accept(","):
                while c.peek()[1] == "inrange":
                    c.skip_paren_attr()
                it = c.type()
                v = self.parse_const(c, it)[1]
                if v >= 1 << (it[1] - 1):
                    v -= 1 << it[1]
                idx.append(v)
            c.expect(")")
            off = idx[0] * self.size_align(t)[0]
            for i in idx[1:]:
                if t[0] == "struct":
                    off += self.offsets(t)[i]
                    t = t[1][i]
                else:
                    off += i * self.size_align(t[2])[0]
                    t = t[2]
            return (base + off) & ((1 << 64) - 1)
        if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "ptrtoaddr", "addrspacecast"):
            t = c.type()
            v = self.parse_const(c, t)[1]
            c.expect("to")
            t2 = c.type()
            c.expect(")")
            if t2 != "ptr" and t2[0] == "i":
                v &= (1 << t2[1]) - 1
            return v
        t = c.type()
        a = self.parse_const(c, t)[1]
        c.expect(",")
        t = c.type()
        b = self.parse_const(c, t)[1]
        c.expect(")")
        m = (1 << t[1]) - 1
        return {"add": a + b, "sub": a - b, "mul": a * b, "xor": a ^ b, "shl": a << b}[op] & m

    def addr_of(self, name):
        name = self.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        oid = self.next_id
        self.next_id += 1
        a = oid << 32
        self.gaddr[name] = a
        if name in self.globals:
            self.make_global(name, oid)
        else:
            self.faddr[name] = a
            self.fname_of_addr[a] = name
        return a

    def make_global(self, name, oid):
        from .mem import Obj
        src = self.globals[name]
        toks = lex(src)
        c = Cur(toks, self)
        ext = False
        while not c.is_type():
            k, v = c.peek()
            if v in ("external", "extern_weak"):
                ext = True
            if c.peek(1)[1] == "(":
                c.skip_paren_attr()
            else:
                c.next()
        t = c.type()
        size, _ = self.size_align(t)
        o = Obj(size)
        self.init_objs[oid] = o
        if ext and (c.done() or c.at(",")):
            return
        v = self.parse_const(c, t)
        self.write_const(o, 0, t, v)

    def write_const(self, o, off, t, v):
        k = v[0]
        size, _ = self.size_align(t)
        if k == "undef":
            return
        if k == "zero":
            o.fill(off, size, 0)
            return
        if k == "bytes":
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == "agg":
            offs = self.offsets(t)
            for i, (et, ev) in enumerate(v[1]):
                self.write_const(o, off + offs[i], et, ev)
            return
        o.cells[off] = (size, v[1])

    # --- execution entry
    def get(self, name):
        f = self.compiled.get(name)
        if f is None:
            from .codegen import compile_function
            name2 = self.aliases.get(name, name)
            f = compile_function(self, name2)
            self.compiled[name] = f
        return f
