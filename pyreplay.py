#!/usr/bin/env python3-vt
"""Native twin of engine/pyfront.py: `pyreplay.py <entry> <inputs-file> [param...]` runs a harness entry of
pyharness.py on /repo/python_ai with plain floats and the recorded inputs (same exit codes as the Rust replay)."""
import os
import struct
import math
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo/python_ai")
import numpy as np          # noqa: E402

TOL = 1e-7


class Done(BaseException):
    def __init__(self, code, msg):
        self.code, self.msg = code, msg


def scale(a, b):
    return max(abs(a), abs(b), 1.0)


class NatApi:
    symbolic = False

    def __init__(self, toks, params):
        self.toks, self.at, self.params = toks, 0, params
        self.failed = False
        self.expect = None

    def end(self, code, msg):
        raise Done(10 if self.failed else code, msg)

    def next(self):
        if self.at >= len(self.toks):
            self.end(13, "INPUT-MISMATCH")
        self.at += 1
        return self.toks[self.at - 1]

    def real(self):
        return float(self.next())

    def const(self, x):
        return float(x)

    def array(self, x):
        return np.array(x, dtype=float)

    def param(self, i):
        return self.params[i] if i < len(self.params) else 0

    def choice(self, k):
        return int(self.next())

    def assume(self, b):
        if not b:
            self.end(12, "ASSUME-FAILED")

    def assume_gt(self, a, b):
        self.assume(a > b - 1e-9 * scale(a, b))

    def assume_ge(self, a, b):
        self.assume(a >= b - 1e-9 * scale(a, b))

    def assume_eq(self, a, b):
        self.assume(abs(a - b) <= 1e-9 * scale(a, b))

    def generic(self, on):
        pass

    def verdict(self, ok, l, what=""):
        print("CHECK %s %s" % (l, "ok" if ok else "FAIL " + what), flush=True)
        if not ok:
            self.failed = True

    def check(self, b, l):
        self.verdict(bool(b), l)

    def num(self, a, l):
        try:
            return float(a)
        except (TypeError, ValueError):
            self.verdict(False, l, "not a number: %s" % type(a).__name__)
            self.end(10, "")

    def check_eq(self, a, b, l, mag=0):
        a, b = self.num(a, l), self.num(b, l)
        self.verdict(a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= TOL * max(scale(a, b), abs(mag))), l, "%r != %r" % (a, b))

    def check_le(self, a, b, l):
        a, b = self.num(a, l), self.num(b, l)
        self.verdict(a <= b + TOL * scale(a, b) if math.isfinite(a) and math.isfinite(b) else a <= b, l, "%r > %r" % (a, b))

    def check_lt(self, a, b, l):
        a, b = self.num(a, l), self.num(b, l)
        self.verdict(a < b, l, "%r >= %r" % (a, b))

    def observe(self, a, l):
        print("OBS %s %.17e" % (l, float(a)), flush=True)

    def expect_raise(self, l):
        self.expect = l

    def eig(self, mat, vals, vecs):
        """the matrix handed to numpy's decomposition is the announced one"""
        m = np.array(mat, dtype=float)
        mag = float(np.max(np.abs(m)))
        for n in ("eigh", "eigvalsh"):
            def go(a, *r, f=getattr(np.linalg, n), **k):
                if a.shape == m.shape:
                    for i in range(len(m)):
                        for j in range(i + 1):
                            self.check_eq(a[i][j], m[i][j], "the matrix decomposed is the constraint matrix at the point", mag)
                return f(a, *r, **k)
            setattr(np.linalg, n, go)


def main():
    entry, path = sys.argv[1:3]
    params = [int(x) for x in sys.argv[3:]]
    toks = []
    for l in open(path):
        w = l.split()
        if len(w) == 2 and w[0] == "f":
            toks.append(struct.unpack("<d", struct.pack("<Q", int(w[1], 16)))[0])
        elif len(w) == 2 and w[0] in "cn":
            toks.append(int(w[1]))
    api = NatApi(toks, params)
    try:
        import ellalgo
        import pyharness
        with np.errstate(all="ignore"):
            getattr(pyharness, entry)(api, ellalgo)
    except Done as d:
        print(d.msg)
        return d.code
    except Exception as e:
        if api.failed:
            return 10
        if api.expect:
            print("RESULT ok (raised as required)")
            return 0
        print("PANIC %s: %s" % (type(e).__name__, str(e).replace("\n", " ")))
        return 11
    if api.failed:
        return 10
    if api.expect:
        print("CHECK %s FAIL no exception" % api.expect)
        return 10
    return 0


if __name__ == "__main__":
    sys.exit(main())
