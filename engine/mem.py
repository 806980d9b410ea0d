"""Flat address space of objects: address = (object id << 32) | offset."""
from fractions import Fraction
from . import dom as D
from .dom import Unsupported, BitsOf, SymInt


class Obj:
    __slots__ = ("size", "cells", "zero", "freed")

    def __init__(self, size, zero=False):
        self.size = size
        self.cells = {}
        self.zero = zero
        self.freed = False

    def clone(self):
        o = Obj(self.size, self.zero)
        o.cells = dict(self.cells)
        return o

    def fill(self, off, n, byte):
        self.clear(off, n)
        pat8 = int.from_bytes(bytes([byte]) * 8, "little")
        i = off
        e = off + n
        cells = self.cells
        while i < e:
            if i % 8 == 0 and i + 8 <= e:
                cells[i] = (8, pat8)
                i += 8
            else:
                cells[i] = (1, byte)
                i += 1

    def split(self, o):
        s, v = self.cells[o]
        if type(v) is not int:
            if isinstance(v, bool):
                v = int(v)
            else:
                b = D.to_bits(v) if not isinstance(v, (BitsOf, SymInt)) else v
                if type(b) is not int:
                    raise Unsupported("partial access to a symbolic value")
                v = b
        del self.cells[o]
        for i in range(s):
            self.cells[o + i] = (1, (v >> (8 * i)) & 255)

    def split_edges(self, off, n):
        """make sure no cell straddles off or off+n"""
        cells = self.cells
        for edge in (off, off + n):
            for o in range(max(0, edge - 15), edge):
                c = cells.get(o)
                if c is not None and o + c[0] > edge:
                    self.split(o)

    def clear(self, off, n):
        self.split_edges(off, n)
        cells = self.cells
        if n < 2 * len(cells):
            for o in range(off, off + n):
                if o in cells:
                    del cells[o]
        else:
            for o in [o for o in cells if off <= o < off + n]:
                del cells[o]

    def load_int(self, off, n):
        c = self.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if type(v) is int:
                return v
            if type(v) in (BitsOf, SymInt, bool):
                return v
            if n == 8:
                return D.to_bits(v)
        return self.load_slow(off, n)

    def load_slow(self, off, n):
        # is the range empty (uninitialised / zero)?
        r = 0
        cells = self.cells
        i = 0
        while i < n:
            c = cells.get(off + i)
            if c is None:
                # inside an earlier, larger cell?
                hit = None
                for o in range(max(0, off + i - 15), off + i):
                    c2 = cells.get(o)
                    if c2 is not None and o + c2[0] > off + i:
                        hit = o
                if hit is None:
                    i += 1
                    continue
                s, v = cells[hit]
                if type(v) is not int:
                    v = D.to_bits(v) if not isinstance(v, (BitsOf, SymInt)) else v
                    if type(v) is not int:
                        raise Unsupported("partial load of a symbolic value")
                r |= ((v >> (8 * (off + i - hit))) & 255) << (8 * i)
                i += 1
                continue
            s, v = c
            if type(v) is not int:
                if isinstance(v, bool):
                    v = int(v)
                elif isinstance(v, (BitsOf, SymInt)):
                    raise Unsupported("wide load of a symbolic value")
                else:
                    v = D.to_bits(v)
                    if type(v) is not int:
                        raise Unsupported("wide load of a symbolic value")
            k = min(s, n - i)
            r |= (v & ((1 << (8 * k)) - 1)) << (8 * i)
            i += k
        return r

    def load_f64(self, off):
        c = self.cells.get(off)
        if c is not None and c[0] == 8:
            v = c[1]
            t = type(v)
            if t is int:
                return D.from_bits64(v)
            if t is BitsOf:
                return v.v
            return v
        return D.of_bits(self.load_slow(off, 8))

    def store(self, off, n, v):
        cells = self.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear(off, n)
        cells[off] = (n, v)


class Memory:
    def __init__(self, mod):
        self.mod = mod
        self.objs = {}
        self.next = 1 << 20
        self.live = 0

    def obj(self, oid):
        o = self.objs.get(oid)
        if o is None:
            p = self.mod.init_objs.get(oid)
            if p is None:
                raise Unsupported("access to invalid object %d" % oid)
            o = p.clone()
            self.objs[oid] = o
        return o

    def alloc(self, size, zero=False):
        i = self.next
        self.next += 1
        self.objs[i] = Obj(size, zero)
        return i << 32

    def free(self, a):
        if a:
            o = self.objs.get(a >> 32)
            if o is None or o.freed or a & 0xFFFFFFFF:
                raise Unsupported("bad free")
            o.freed = True
            o.cells = {}

    def at(self, a, n):
        oid = a >> 32
        o = self.objs.get(oid)
        if o is None:
            o = self.obj(oid)
        off = a & 0xFFFFFFFF
        if off + n > o.size or o.freed:
            raise Unsupported("out-of-bounds or use-after-free access (%d+%d of %d)" % (off, n, o.size))
        return o, off

    def ldi(self, a, n):
        o, off = self.at(a, n)
        return o.load_int(off, n)

    def ldf(self, a):
        o, off = self.at(a, 8)
        return o.load_f64(off)

    def st(self, a, n, v):
        o, off = self.at(a, n)
        o.store(off, n, v)

    def copy(self, dst, src, n):
        if n == 0:
            return
        s, so = self.at(src, n)
        d, do = self.at(dst, n)
        s.split_edges(so, n)
        cells = s.cells
        if n < 2 * len(cells):
            items = [(o - so, cells[o]) for o in range(so, so + n) if o in cells]
        else:
            items = [(o - so, c) for o, c in cells.items() if so <= o < so + n]
        d.clear(do, n)
        dc = d.cells
        for o, c in items:
            dc[do + o] = c

    def memset(self, dst, byte, n):
        if n == 0:
            return
        d, do = self.at(dst, n)
        d.fill(do, n, byte)

    def bytes(self, a, n):
        if n == 0:
            return b""
        o, off = self.at(a, n)
        return bytes(o.load_slow(off + i, 1) for i in range(n))
