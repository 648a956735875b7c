"""Symbolic machine: memory, integers (python int / z3 bit-vector), control decisions, path exploration."""
import struct, time, z3
from . import rterm as R
from .rterm import N, RB
from .llvmir import UNDEF, Unsupported, OBJ, mask, Module

OM = (1 << OBJ) - 1
M64 = mask(64)

class CxxThrow(Exception):
    def __init__(self, ptr, ti, dtor=0):
        self.ptr, self.ti, self.dtor = ptr, ti, dtor

class PathEnd(Exception):
    """execution cannot continue: kind in mem uninit divzero abort unreachable infeasible limit"""
    def __init__(self, kind, msg, **kw):
        Exception.__init__(self, kind + ": " + msg)
        self.kind, self.msg, self.info = kind, msg, kw

# ------------------------------------------------------------------ fp helpers (used by generated code)
def _fx(x):
    if type(x) is N: return x
    if x is UNDEF: return None
    if type(x) is int: return bits2d(x)
    raise Unsupported("fp operand %r" % (type(x),))
def bits2d(x):
    return R.dconst(struct.unpack("<d", struct.pack("<Q", x & M64))[0])
def d2bits(n):
    if n.k == "c":
        return struct.unpack("<Q", struct.pack("<d", R.nfloat(n.a)))[0]
    return None
def _slow(op, a, b):
    a = _fx(a); b = _fx(b)
    if a is None or b is None: return UNDEF
    return op(a, b)
def fadd(a, b):
    if type(a) is N and type(b) is N: return R.add(a, b)
    return _slow(R.add, a, b)
def fsub(a, b):
    if type(a) is N and type(b) is N: return R.sub(a, b)
    return _slow(R.sub, a, b)
def fmul(a, b):
    if type(a) is N and type(b) is N: return R.mul(a, b)
    return _slow(R.mul, a, b)
def fdiv(a, b):
    if type(a) is N and type(b) is N: return R.div(a, b)
    return _slow(R.div, a, b)
def frem(a, b):
    return _slow(lambda x, y: R.fn("fmod", x, y), a, b)
def fneg(a):
    a = _fx(a)
    return UNDEF if a is None else R.neg(a)
def f1(op):
    def g(a):
        a = _fx(a)
        return UNDEF if a is None else op(a)
    return g
fcos, fsin, fsqrt, ffabs = f1(R.cos), f1(R.sin), f1(R.sqrt), f1(R.fabs)
def f32(a):
    a = _fx(a)
    if a is None: return UNDEF
    a = R.norm(a)
    if a.k == "c":
        import numpy as np
        return R.dconst(float(np.float32(R.nfloat(a.a))))
    return R.fn("f32", a)
def fuf(name):
    def g(*a):
        a = [_fx(x) for x in a]
        if any(x is None for x in a): return UNDEF
        a = [R.norm(x) for x in a]
        if name == "pow":
            e = a[1]
            if e.k == "c" and type(e.a) is not R.NumX:
                if e.a.denominator == 1 and abs(e.a) <= 8: return a[0] ** int(e.a)
                if e.a == R.HALF: return R.sqrt(a[0])
        if name == "hypot": return R.sqrt(R.add(R.mul(a[0], a[0]), R.mul(a[1], a[1])))
        if name == "tan":
            c, s = R.cossin(a[0])
            return R.div(s, c)
        if name == "fmax": return R.ite(R.RB("lt", R.sub(a[0], a[1])), a[1], a[0])
        if name == "fmin": return R.ite(R.RB("lt", R.sub(a[1], a[0])), a[1], a[0])
        if name == "exp" and a[0] is R.ZERO: return R.ONE
        if name == "log" and a[0] is R.ONE: return R.ZERO
        if all(x.k == "c" for x in a) and name in R._UF:
            try:
                return R.dconst(float(R._UF[name](*[R.nfloat(x.a) for x in a])))
            except (ValueError, OverflowError):
                pass
        return R.fn(name, *a)
    return g

def insv(agg, i, v, n):
    l = list(agg) if type(agg) is tuple else [UNDEF] * n
    l[i] = v
    return tuple(l)

class Obj:
    __slots__ = ("size", "cells", "szs", "u", "fill", "alive", "kind", "name", "ro", "id")
    def __init__(self, size, kind, name=""):
        self.size, self.kind, self.name = size, kind, name
        self.cells = {}
        self.szs = None       # uniform mode while None
        self.u = 0
        self.fill = None
        self.alive = True
        self.ro = False

    def mixed(self):
        if self.szs is None:
            u = self.u
            self.szs = {o: u for o in self.cells}
            self.u = -1

    def put(self, off, size, v):
        if self.szs is None:
            if self.u == size:
                if off % size == 0:
                    self.cells[off] = v
                    return
            elif self.u == 0 and off % size == 0:
                self.u = size
                self.cells[off] = v
                return
            self.mixed()
        if self.szs.get(off) != size:
            self._clear(off, off + size)
        self.cells[off] = v
        self.szs[off] = size

    def _clear(self, lo, hi):
        """mixed mode: remove or split cells overlapping [lo,hi)"""
        szs, cells = self.szs, self.cells
        if hi - lo > 64 and len(cells) < hi - lo:
            cand = [o for o in cells if o < hi and o + szs[o] > lo]
        else:
            cand = [o for o in range(lo - 15, hi) if o in cells and o + szs[o] > lo]
        for o in cand:
            s, v = szs[o], cells[o]
            del szs[o]; del cells[o]
            if o < lo or o + s > hi:
                for i in range(s):
                    if not (lo <= o + i < hi):
                        cells[o + i] = byteof(v, i, s)
                        szs[o + i] = 1

    def clear(self, lo, hi):
        if lo <= 0 and hi >= self.size:
            self.cells.clear()
            self.szs = None
            self.u = 0
            self.fill = None
            return
        if self.szs is None and self.u and lo % self.u == 0 and hi % self.u == 0:
            for o in range(lo, hi, self.u):
                self.cells.pop(o, None)
        elif self.cells:
            self.mixed()
            self._clear(lo, hi)
        if self.fill:
            nf = []
            for a, b, c in self.fill:
                if b <= lo or a >= hi: nf.append((a, b, c))
                else:
                    if a < lo: nf.append((a, lo, c))
                    if b > hi: nf.append((hi, b, c))
            self.fill = nf or None

    def setfill(self, lo, hi, byte):
        self.clear(lo, hi)
        if self.fill is None: self.fill = [(lo, hi, byte)]
        else: self.fill.append((lo, hi, byte))

    def getfill(self, off):
        if self.fill:
            for a, b, c in reversed(self.fill):
                if a <= off < b: return c
        return None

    def byte(self, off):
        if self.szs is None:
            if self.u:
                o = off - off % self.u
                if o in self.cells:
                    return byteof(self.cells[o], off - o, self.u)
        else:
            for o in range(off, off - 16, -1):
                s = self.szs.get(o)
                if s is not None:
                    if o + s > off:
                        return byteof(self.cells[o], off - o, s)
                    break
        f = self.getfill(off)
        return UNDEF if f is None else f

    def get(self, off, size):
        v = None
        if self.szs is None:
            if self.u == size and off % size == 0:
                v = self.cells.get(off)
        elif self.szs.get(off) == size:
            v = self.cells[off]
        if v is not None:
            return v
        if self.fill and not self.cells:
            f = self.getfill(off)
            if f is not None and self.getfill(off + size - 1) == f and len(self.fill) == 1:
                return f * (mask(8 * size) // 255)
        bs = [self.byte(off + i) for i in range(size)]
        return joinbytes(bs)

    def pieces(self, lo, hi):
        """[(off,size,val)] describing initialised content of [lo,hi), cells kept whole where possible"""
        out = []
        o = lo
        while o < hi:
            s = None
            if self.szs is None:
                if self.u and o % self.u == 0 and o in self.cells: s = self.u
            else:
                s = self.szs.get(o)
            if s and o + s <= hi:
                out.append((o, s, self.cells[o]))
                o += s
                continue
            # bulk fill
            if self.fill and not s:
                done = False
                for a, b, c in reversed(self.fill):
                    if a <= o < b:
                        if self.szs is None and self.u and o % self.u == 0 and o + self.u <= min(b, hi) :
                            out.append((o, self.u, c * (mask(8 * self.u) // 255)))
                            o += self.u
                            done = True
                        elif not self.cells:
                            e = min(b, hi)
                            while o + 8 <= e and o % 8 == 0:
                                out.append((o, 8, c * (M64 // 255)))
                                o += 8
                                done = True
                        break
                if done: continue
            b = self.byte(o)
            if b is not UNDEF: out.append((o, 1, b))
            o += 1
        return out

def byteof(v, i, size):
    if type(v) is int: return (v >> (8 * i)) & 255
    if v is UNDEF: return UNDEF
    if type(v) is N:
        b = d2bits(v)
        if b is None: return ("part", v, i, size)
        return (b >> (8 * i)) & 255
    if type(v) is tuple: raise Unsupported("byte of partial value")
    if z3.is_bv(v):
        return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
    raise Unsupported("byte of %r" % type(v))

def joinbytes(bs):
    if all(type(b) is int for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if any(b is UNDEF for b in bs):
        return UNDEF
    if type(bs[0]) is tuple:
        v, n = bs[0][1], len(bs)
        if all(type(b) is tuple and b[1] is v and b[2] == i and b[3] == n for i, b in enumerate(bs)):
            return v
        raise Unsupported("partial double access")
    if len(bs) == 1: return bs[0]
    l = []
    for b in reversed(bs):
        if type(b) is tuple: raise Unsupported("partial double access")
        l.append(z3.BitVecVal(b, 8) if type(b) is int else b)
    return z3.simplify(z3.Concat(*l))

def isbool(x):
    return type(x) is RB or isinstance(x, z3.BoolRef)

class Machine:
    steps_limit = 60_000_000
    def __init__(self, mod, prefix=(), tms=5000):
        self.mod = mod
        self.objs = {}
        self.next = mod.first_free
        self.steps = 0
        self.stack = []
        self.depth = 0
        self.exc = None
        self.caught = []
        self.prefix = prefix
        self.trace = []           # [(value, forced)]
        self.solver = z3.Solver()
        self.solver.set("timeout", tms)
        self.pc = []
        self.unknown = 0
        self.nchecks = 0
        self.tsolve = 0.0
        self.log = None           # footprint hook
        self.hold = ()
        self.tid = 0
        self.out = []             # captured stdout
        self.calls = []           # trace of external calls of interest
        self.notes = []
        self.extra = {}
        self.fresh_n = 0
        from . import stubs
        stubs.setup(self)

    # ---------------------------------------------------------- solver / decisions
    def zb(self, c):
        if type(c) is RB:
            from . import prove
            e, side = prove.rb_z3(c)
            for s in side: self.solver.add(s)
            return e
        return c

    def check(self, *extra):
        t = time.time()
        self.nchecks += 1
        r = self.solver.check(*extra)
        self.tsolve += time.time() - t
        return r

    def assume(self, c):
        if type(c) is bool or type(c) is int:
            if not c: raise PathEnd("infeasible", "assumption")
            return
        c = self.zb(c)
        self.pc.append(c)
        self.solver.add(c)

    def decide(self, c, why=None):
        if type(c) is int or type(c) is bool: return bool(c)
        if c is UNDEF:
            raise PathEnd("uninit", "branch on an uninitialised value", where=self.where())
        if z3.is_bv(c) if isinstance(c, z3.ExprRef) else False:
            c = c == z3.BitVecVal(1, c.size())
        e = self.zb(c)
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][0]
            self.trace.append(self.prefix[i])
        else:
            r1 = self.check(e)
            if r1 == z3.unsat:
                v, forced = False, True
            else:
                r2 = self.check(z3.Not(e))
                v, forced = True, r2 == z3.unsat
                if r1 == z3.unknown or r2 == z3.unknown:
                    self.unknown += 1
            self.trace.append((v, forced))
        e = e if v else z3.Not(e)
        self.solver.add(e)
        self.pc.append(e)
        return v

    def where(self):
        return ""

    def fresh(self, name, w):
        self.fresh_n += 1
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def concretize(self, v, w=64, why="", limit=None):
        """fork over the feasible values of a symbolic integer"""
        if type(v) is int: return v
        if v is UNDEF: raise PathEnd("uninit", "uninitialised value used as " + (why or "size/address"))
        if isbool(v): return int(self.decide(v))
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        n = 0
        while True:
            # inside a known prefix the value must be reproducible: it is stored with the decision
            i = len(self.trace)
            if i < len(self.prefix):
                val = self.prefix[i][2]
                ok = self.prefix[i][0]
                self.trace.append(self.prefix[i])
            else:
                r = self.check()
                if r == z3.unsat: raise PathEnd("infeasible", "path")
                if r == z3.unknown: raise Unsupported("solver gave up on an address")
                val = self.solver.model().eval(v, model_completion=True).as_long()
                ok = True
                forced = self.check(v != val) == z3.unsat
                self.trace.append((True, forced, val))
            e = v == z3.BitVecVal(val, v.size())
            if ok:
                self.solver.add(e); self.pc.append(e)
                return val
            self.solver.add(z3.Not(e)); self.pc.append(z3.Not(e))
            n += 1
            if limit and n > limit:
                raise PathEnd("limit", "too many values for " + why)

    # ---------------------------------------------------------- integers
    def _bv(self, x, w):
        if type(x) is int: return z3.BitVecVal(x, w)
        if isbool(x):
            b = self.zb(x)
            return z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if type(x) is N:
            b = d2bits(R.norm(x))
            if b is not None: return z3.BitVecVal(b, w)
            raise Unsupported("integer arithmetic on a double's bits")
        if type(x) is tuple: raise Unsupported("integer arithmetic on partial value")
        return x
    def _bin(self, f, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            return self._boolop(f, a, b)
        return self._s(f(self._bv(a, w), self._bv(b, w)))
    def _s(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        return e
    def _boolop(self, f, a, b):
        raise Unsupported("i1 arithmetic")
    def add(self, a, b, w):
        if w == 1: return self.xor(a, b, 1)
        return self._bin(lambda x, y: x + y, a, b, w)
    def sub(self, a, b, w):
        if w == 1: return self.xor(a, b, 1)
        return self._bin(lambda x, y: x - y, a, b, w)
    def mul(self, a, b, w):
        if type(a) is int and a == 0 or type(b) is int and b == 0: return 0
        return self._bin(lambda x, y: x * y, a, b, w)
    def _dz(self, b, w):
        if b is UNDEF: raise PathEnd("uninit", "division by an uninitialised value")
        if type(b) is int:
            if b == 0: raise PathEnd("divzero", "integer division by zero")
        elif self.decide(self._bv(b, w) == 0):
            raise PathEnd("divzero", "integer division by zero")
    def _sg(self, x, w):
        return x - (1 << w) if x >> (w - 1) else x
    def udiv(self, a, b, w):
        self._dz(b, w)
        if type(a) is int and type(b) is int: return a // b
        return self._bin(z3.UDiv, a, b, w)
    def urem(self, a, b, w):
        self._dz(b, w)
        if type(a) is int and type(b) is int: return a % b
        return self._bin(z3.URem, a, b, w)
    def sdiv(self, a, b, w):
        self._dz(b, w)
        if type(a) is int and type(b) is int:
            x, y = self._sg(a, w), self._sg(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & mask(w)
        return self._bin(lambda x, y: x / y, a, b, w)
    def srem(self, a, b, w):
        self._dz(b, w)
        if type(a) is int and type(b) is int:
            x, y = self._sg(a, w), self._sg(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & mask(w)
        return self._bin(z3.SRem, a, b, w)
    def shl(self, a, b, w):
        if type(a) is int and type(b) is int: return (a << b) & mask(w) if b < w else 0
        return self._bin(lambda x, y: x << y, a, b, w)
    def lshr(self, a, b, w):
        if type(a) is int and type(b) is int: return a >> b if b < w else 0
        return self._bin(z3.LShR, a, b, w)
    def ashr(self, a, b, w):
        if type(a) is int and type(b) is int: return (self._sg(a, w) >> min(b, w)) & mask(w)
        return self._bin(lambda x, y: x >> y, a, b, w)
    def and_(self, a, b, w):
        if w == 1:
            if type(a) is int: return b if a else 0
            if type(b) is int: return a if b else 0
            if a is UNDEF or b is UNDEF: return UNDEF
            return self._sb(z3.And(self.zb(a), self.zb(b)))
        if type(a) is int and a == 0 or type(b) is int and b == 0: return 0
        return self._bin(lambda x, y: x & y, a, b, w)
    def or_(self, a, b, w):
        if w == 1:
            if type(a) is int: return 1 if a else b
            if type(b) is int: return 1 if b else a
            if a is UNDEF or b is UNDEF: return UNDEF
            return self._sb(z3.Or(self.zb(a), self.zb(b)))
        return self._bin(lambda x, y: x | y, a, b, w)
    def xor(self, a, b, w):
        if w == 1:
            if a is UNDEF or b is UNDEF: return UNDEF
            if type(a) is int: a, b = b, a
            if type(b) is int:
                if not b: return a
                return a.neg() if type(a) is RB else self._sb(z3.Not(a))
            return self._sb(z3.Xor(self.zb(a), self.zb(b)))
        return self._bin(lambda x, y: x ^ y, a, b, w)
    def _sb(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
        return e
    def icmp(self, p, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            if p == "eq": return self.xor(self.xor(a, b, 1), 1, 1)
            if p == "ne": return self.xor(a, b, 1)
            a = self._bv(a, 2); b = self._bv(b, 2); w = 2
        if type(a) is N and type(b) is N and p in ("eq", "ne"):
            r = R.cmp("eq" if p == "eq" else "ne", a, b)
            return r
        x, y = self._bv(a, w), self._bv(b, w)
        e = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
             "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
             "slt": lambda: x < y, "sle": lambda: x <= y}[p]()
        return self._sb(e)
    def trunc(self, a, fw, tw):
        if a is UNDEF: return UNDEF
        if isbool(a): return a
        if tw == 1:
            return self._sb(z3.Extract(0, 0, self._bv(a, fw)) == 1)
        return self._s(z3.Extract(tw - 1, 0, self._bv(a, fw)))
    def zext(self, a, fw, tw):
        if a is UNDEF: return UNDEF
        if fw == 1: return self._s(self._bv(a, tw))
        return self._s(z3.ZeroExt(tw - fw, self._bv(a, fw)))
    def sext(self, a, fw, tw):
        if a is UNDEF: return UNDEF
        if fw == 1: return self._s(z3.If(self.zb(a), z3.BitVecVal(mask(tw), tw), z3.BitVecVal(0, tw)))
        return self._s(z3.SignExt(tw - fw, self._bv(a, fw)))
    def gep(self, a, off, dyn):
        if a is UNDEF: return UNDEF
        r = self._bv(a, 64) + z3.BitVecVal(off & M64, 64)
        for x, w, sc in dyn:
            if x is UNDEF: return UNDEF
            x = self._bv(x, w)
            if w < 64: x = z3.SignExt(64 - w, x)
            r = r + x * z3.BitVecVal(sc & M64, 64)
        return self._s(r)
    def itofp(self, a, w, signed):
        if a is UNDEF: return UNDEF
        if type(a) is int:
            return R.lift(self._sg(a, w) if signed else a)
        if isbool(a): return R.ite(a, R.ONE, R.ZERO) if not signed else R.ite(a, R.lift(-1), R.ZERO)
        return R.mk("f", ("i2r", R.ZB(a), bool(signed)))
    def fptoi(self, a, w, signed):
        a = _fx(a)
        if a is None: return UNDEF
        a = R.expand(a) if a.k != "c" else a
        if a.k == "c":
            v = R.nfloat(a.a)
            return int(v) & mask(w)
        if a.k == "f" and a.a[0] == "i2r":
            b = a.a[1].e
            if b.size() == w: return b
        raise Unsupported("double to integer conversion of a symbolic value")
    def bitcast(self, a, t):
        return a
    def fcmp(self, p, a, b):
        if p == 0: return 0
        if p == 15: return 1
        a = _fx(a); b = _fx(b)
        if a is None or b is None: return UNDEF
        a = R.norm(a); b = R.norm(b)
        sp = [x for x in (a, b) if x.k == "f" and x.a[0] == "special"]
        if sp:
            fa = float(a.a[1]) if a in sp else 0.0
            fb = float(b.a[1]) if b in sp else 0.0
            nan = fa != fa or fb != fb
            r = {1: fa == fb, 2: fa > fb, 3: fa >= fb, 4: fa < fb, 5: fa <= fb, 6: fa != fb and not nan, 7: not nan, 8: nan}.get(p)
            if r is None:
                q = p - 8
                r = nan or {1: fa == fb, 2: fa > fb, 3: fa >= fb, 4: fa < fb, 5: fa <= fb, 6: fa != fb}[q]
            return int(r)
        if p == 7: return 1
        if p == 8: return 0
        q = p if p < 8 else p - 8
        return R.cmp({1: "eq", 2: "gt", 3: "ge", 4: "lt", 5: "le", 6: "ne"}[q], a, b)
    def select(self, c, a, b, t, w):
        if c is UNDEF: return UNDEF
        if a is b: return a
        if t == "d":
            if a is UNDEF or b is UNDEF:
                return a if self.decide(c) else b
            return R.ite(c, _fx(a), _fx(b))
        if t in ("i", "p"):
            if type(a) is int and type(b) is int and a == b: return a
            if a is UNDEF or b is UNDEF or type(a) is N or type(b) is N:
                return a if self.decide(c) else b
            if w == 1:
                if type(a) is int and type(b) is int:
                    return c if a else self.xor(c, 1, 1)
                cc = self.zb(c)
                za = z3.BoolVal(bool(a)) if type(a) is int else self.zb(a)
                zb_ = z3.BoolVal(bool(b)) if type(b) is int else self.zb(b)
                return self._sb(z3.If(cc, za, zb_))
            if t == "p":
                return a if self.decide(c) else b
            return self._s(z3.If(self.zb(c), self._bv(a, w), self._bv(b, w)))
        return a if self.decide(c) else b
    def switch(self, a, w, cases):
        if a is UNDEF: raise PathEnd("uninit", "switch on an uninitialised value")
        x = self._bv(a, w)
        for c in cases:
            if self.decide(x == z3.BitVecVal(c, w)): return c
        return -1

    # ---------------------------------------------------------- memory
    def new(self, size, kind, name=""):
        o = Obj(size, kind, name)
        i = self.next
        self.next += 1
        o.id = i
        self.objs[i] = o
        return i << OBJ

    def _global(self, oid, p):
        g = self.mod.gv_by_id.get(oid)
        if g is None:
            if oid in self.mod.fn_by_id:
                raise PathEnd("mem", "data access to a function")
            raise PathEnd("mem", "access through %s" % ("a null pointer" if oid == 0 else "an invalid pointer"), addr=p)
        if g.decl:
            from . import stubs
            h = stubs.EXTGLOBALS.get(g.name)
            if h is None:
                if g.name.startswith("_ZTI") or g.name.startswith("_ZTV"):
                    o = Obj(1 << 20, "global", g.name)
                    o.setfill(0, 1 << 20, 0)
                    o.id = oid
                    self.objs[oid] = o
                    return o
                raise Unsupported("external global " + g.name)
            o = h(self, g)
        else:
            o = Obj(g.size, "global", g.name)
            for off, size, v in self.mod.init_cells(g):
                if v is None: o.setfill(off, off + size, 0)
                elif type(v) is bytes:
                    for i, b in enumerate(v): o.put(off + i, 1, b)
                elif v is UNDEF: pass
                else: o.put(off, size, v)
        o.id = oid
        self.objs[oid] = o
        return o

    def obj(self, p, size, wr):
        oid = p >> OBJ
        o = self.objs.get(oid)
        if o is None: o = self._global(oid, p)
        off = p & OM
        if off + size > o.size or not o.alive:
            if not o.alive:
                raise PathEnd("mem", "access to released %s memory" % o.kind, write=wr, obj=o.name)
            raise PathEnd("mem", "%s of %d bytes at offset %d of a %d-byte %s object" % ("write" if wr else "read", size, off, o.size, o.kind), write=wr, obj=o.name)
        return o, off

    def resolve(self, p, size, wr):
        if p is UNDEF: raise PathEnd("uninit", "access through an uninitialised pointer")
        if type(p) is N: raise Unsupported("double used as pointer")
        r = self.check()
        if r == z3.unsat: raise PathEnd("infeasible", "path")
        # the object is the one of some model; leaving it is an error
        i = len(self.trace)
        m = None
        if r == z3.sat:
            base = None
            # find base: constant part of the sum
            p0 = self.solver.model().eval(p, model_completion=True).as_long()
            o = self.objs.get(p0 >> OBJ)
            cand = _const_base(p)
            if cand is not None:
                base = cand >> OBJ
                o = self.objs.get(base)
                if o is None:
                    try: o = self._global(base, cand)
                    except PathEnd: o = None
            else:
                base = p0 >> OBJ
            if o is not None:
                lo = z3.BitVecVal(base << OBJ, 64)
                inb = z3.And(z3.UGE(p, lo), z3.ULE(p, lo + z3.BitVecVal(max(o.size - size, 0), 64)))
                if o.size < size: inb = z3.BoolVal(False)
                if not self.decide(inb):
                    raise PathEnd("mem", "%s of %d bytes outside a %d-byte %s object (symbolic address)" % ("write" if wr else "read", size, o.size, o.kind), write=wr, obj=o.name)
        return self.concretize(p, 64, "address", limit=4096)

    def aload(self, p, size, t):
        if self.log is None: return self.load(p, size, t)
        l = self.log
        self.log = None
        try: v = self.load(p, size, t)
        finally: self.log = l
        if type(p) is int: l(2, p, size)
        return v
    def astore(self, p, size, v):
        l = self.log
        self.log = None
        try: self.store(p, size, v)
        finally: self.log = l
        if l is not None and type(p) is int: l(3, p, size)
    def load(self, p, size, t):
        if type(p) is not int: p = self.resolve(p, size, False)
        o = self.objs.get(p >> OBJ)
        off = p & OM
        if o is None or off + size > o.size or not o.alive:
            o, off = self.obj(p, size, False)
        if self.log is not None: self.log(0, p, size)
        if o.u == size:
            v = o.cells.get(off)
            if v is None: v = o.get(off, size)
        else:
            v = o.get(off, size)
        if t == "d":
            if type(v) is int: return bits2d(v)
            if type(v) is not N and v is not UNDEF: raise Unsupported("symbolic bits as double")
        elif t == "f":
            if type(v) is int: return R.dconst(struct.unpack("<f", struct.pack("<I", v))[0])
        elif t == "i1":
            if type(v) is int: return v & 1
            return self.trunc(v, 8, 1)
        return v

    def store(self, p, size, v):
        if type(p) is not int: p = self.resolve(p, size, True)
        o = self.objs.get(p >> OBJ)
        off = p & OM
        if o is None or off + size > o.size or not o.alive:
            o, off = self.obj(p, size, True)
        if o.ro: raise PathEnd("mem", "write to constant " + o.name)
        if self.log is not None: self.log(1, p, size)
        if isbool(v): v = self._s(self._bv(v, 8))
        if v is UNDEF:
            o.clear(off, off + size)
            return
        if o.u == size and not off % size:
            o.cells[off] = v
        else:
            o.put(off, size, v)

    def memset(self, p, v, n):
        n = self.concretize(n, 64, "memset size")
        if n == 0: return
        if type(p) is not int: p = self.resolve(p, n, True)
        v = self.concretize(v, 8, "memset value")
        o, off = self.obj(p, n, True)
        if self.log is not None: self.log(1, p, n)
        if n <= 64 and (o.u > 0 and n % o.u == 0 and off % o.u == 0):
            pv = (v & 255) * (mask(8 * o.u) // 255)
            for i in range(off, off + n, o.u): o.cells[i] = pv
            return
        o.setfill(off, off + n, v & 255)

    def memcpy(self, d, s, n):
        n = self.concretize(n, 64, "memcpy size")
        if n == 0: return
        if type(s) is not int: s = self.resolve(s, n, False)
        if type(d) is not int: d = self.resolve(d, n, True)
        so, soff = self.obj(s, n, False)
        do, doff = self.obj(d, n, True)
        if self.log is not None:
            self.log(0, s, n); self.log(1, d, n)
        if do.ro: raise PathEnd("mem", "write to constant")
        pc = so.pieces(soff, soff + n)
        do.clear(doff, doff + n)
        for o, sz, v in pc: do.put(o - soff + doff, sz, v)

    def alloca(self, sz, cnt, Rg):
        cnt = self.concretize(cnt, 64, "alloca")
        p = self.new(sz * cnt, "stack")
        self.stack.append(p >> OBJ)
        return p

    def lifetime(self, p, n):
        if type(p) is int:
            o = self.objs.get(p >> OBJ)
            if o is not None: o.clear(0, o.size)

    def cstr(self, p, limit=100000):
        """concrete bytes of a C string"""
        out = []
        while True:
            b = self.load(p, 1, "i")
            if b is UNDEF: raise PathEnd("uninit", "string contains uninitialised bytes")
            b = self.concretize(b, 8, "string byte")
            if b == 0: return bytes(out).decode("latin1")
            out.append(b)
            p += 1

    def bytes_at(self, p, n):
        out = []
        for i in range(n):
            b = self.load(p + i, 1, "i")
            if b is UNDEF: raise PathEnd("uninit", "uninitialised bytes")
            out.append(self.concretize(b, 8, "byte"))
        return bytes(out).decode("latin1")

    def write_bytes(self, p, s):
        for i, ch in enumerate(s):
            self.store(p + i, 1, ord(ch) if type(ch) is str else ch)

    # ---------------------------------------------------------- calls
    def call(self, fn, args):
        if not fn.compiled: self.mod.compile(fn)
        if self.steps > self.steps_limit: raise PathEnd("limit", "instruction limit")
        Rg = [None] * fn.nregs
        Rg[:len(args)] = args
        b = fn.entry
        mark = len(self.stack)
        self.depth += 1
        if self.depth > 400: raise PathEnd("limit", "recursion")
        try:
            while b is not None:
                b = b(Rg, self)
        except PathEnd as e:
            e.info.setdefault("stack", []).append(fn.name)
            raise
        finally:
            self.depth -= 1
            if len(self.stack) > mark:
                for i in self.stack[mark:]:
                    self.objs[i].alive = False
                    self.objs[i].cells = {}
                del self.stack[mark:]
        return Rg[-1]

    def icall(self, p, args):
        p = self.concretize(p, 64, "function pointer")
        oid = p >> OBJ
        f = self.mod.fn_by_id.get(oid)
        if f is None:
            h = self.extra.get(("fp", p))
            if h: return h(self, *args)
            raise PathEnd("mem", "call through an invalid function pointer")
        if f.decl or f.name in self.mod.overrides: return self.ext(f.name, args)
        return self.call(f, args)

    def ext(self, name, args):
        from . import stubs
        h = stubs.EXT.get(name)
        if h is None:
            raise Unsupported("external function " + name)
        return h(self, *args)

    def asm(self, n): 
        raise Unsupported("inline assembly in " + n)
    def fence(self): pass
    def atomicrmw(self, op, p, v, size):
        old = self.aload(p, size, "i")
        w = size * 8
        if op == 0: new = v
        elif op == 1: new = (old + v) & mask(w) if type(old) is int and type(v) is int else self.add(old, v, w)
        elif op == 2: new = (old - v) & mask(w) if type(old) is int and type(v) is int else self.sub(old, v, w)
        else: raise Unsupported("atomicrmw")
        self.astore(p, size, new)
        return old
    def cmpxchg(self, p, c, n, size):
        old = self.aload(p, size, "p")
        if type(old) is N or type(c) is N:
            ok = 1 if (old is c) else self.decide(R.cmp("eq", _fx(old), _fx(c)))
        else:
            ok = self.decide(self.icmp("eq", old, c, size * 8)) if not (type(old) is int and type(c) is int) else old == c
        if ok: self.astore(p, size, n)
        return (old, int(ok))
    def unreachable(self, f):
        raise PathEnd("unreachable", "unreachable code reached in " + f)

    # ---------------------------------------------------------- exceptions
    def landing(self, clauses, cleanup):
        e = self.exc
        from . import stubs
        for kind, ti in clauses:
            if kind == "catch" and (ti == 0 or stubs.catches(self, ti, e.ti)):
                return (e.ptr, ti & mask(32) if False else (ti >> 8) & mask(32) if ti else 0x7fffffff)
            if kind == "filter":
                return (e.ptr, mask(32))
        if cleanup: return (e.ptr, 0)
        raise e
    def typeid(self, ti):
        return (ti >> 8) & mask(32) if ti else 0x7fffffff
    def resume(self, agg):
        raise self.exc

def _const_base(p):
    """the object address inside a symbolic pointer sum"""
    st = [p]
    best = None
    while st:
        x = st.pop()
        if z3.is_bv_value(x):
            v = x.as_long()
            if (v >> OBJ) and (v >> 63) == 0: best = v
        elif x.decl().kind() == z3.Z3_OP_BADD:
            st.extend(x.children())
    return best

# ------------------------------------------------------------------ intrinsics (code generation)
def intrinsic(cg, nm, a, i, t):
    w = cg.lines.append
    def s(p): return nm.startswith("llvm." + p)
    if s("dbg.") or s("assume") or s("experimental.noalias") or s("invariant.end") or s("donothing") or s("prefetch") or s("var.annotation"):
        return None
    if s("lifetime."):
        w("    S.lifetime(%s, 0)" % a[1])
        return None
    if s("invariant.start"):
        cg.setv(i, "0"); return None
    if s("memset"):
        w("    S.memset(%s, %s, %s)" % (a[0], a[1], a[2])); return None
    if s("memcpy") or s("memmove"):
        w("    S.memcpy(%s, %s, %s)" % (a[0], a[1], a[2])); return None
    if s("fmuladd") or s("fma."):
        cg.setv(i, "fadd(fmul(%s, %s), %s)" % tuple(a)); return None
    for f in ("fabs", "sqrt", "sin", "cos"):
        if s(f + "."):
            cg.setv(i, "f%s(%s)" % ("fabs" if f == "fabs" else f, a[0]) if f != "fabs" else "ffabs(%s)" % a[0]); return None
    for f in ("exp", "log", "pow", "floor", "ceil", "trunc", "round", "rint", "exp2", "log2", "log10", "nearbyint"):
        if s(f + "."):
            cg.setv(i, "fuf_%s(%s)" % (f, ", ".join(a))); return None
    if s("maxnum") : cg.setv(i, "fuf_fmax(%s, %s)" % tuple(a)); return None
    if s("minnum") : cg.setv(i, "fuf_fmin(%s, %s)" % tuple(a)); return None
    if s("copysign"): cg.setv(i, "S.copysign(%s, %s)" % tuple(a)); return None
    if s("powi"): cg.setv(i, "S.powi(%s, %s)" % tuple(a)); return None
    if s("abs."):
        W = t[1]
        cg.setv(i, "S.iabs(%s, %d)" % (a[0], W)); return None
    for f in ("smax", "smin", "umax", "umin"):
        if s(f + "."):
            cg.setv(i, "S.minmax(%r, %s, %s, %d)" % (f, a[0], a[1], t[1])); return None
    for f in ("usub.sat", "uadd.sat"):
        if s(f):
            cg.setv(i, "S.usat(%r, %s, %s, %d)" % (f, a[0], a[1], t[1])); return None
    for f in ("umul.with", "uadd.with", "usub.with", "smul.with", "sadd.with", "ssub.with"):
        if s(f):
            from . import llvmir as I
            W = I.IntW(I.TypeOf(I.Op(i, 0)))
            cg.setv(i, "S.ovf(%r, %s, %s, %d)" % (f[:4], a[0], a[1], W)); return None
    if s("ctlz"): cg.setv(i, "S.ctlz(%s, %d)" % (a[0], t[1])); return None
    if s("cttz"): cg.setv(i, "S.cttz(%s, %d)" % (a[0], t[1])); return None
    if s("ctpop"): cg.setv(i, "S.ctpop(%s, %d)" % (a[0], t[1])); return None
    if s("bswap"): cg.setv(i, "S.bswap(%s, %d)" % (a[0], t[1])); return None
    if s("fshl"): cg.setv(i, "S.fsh(0, %s, %s, %s, %d)" % (a[0], a[1], a[2], t[1])); return None
    if s("fshr"): cg.setv(i, "S.fsh(1, %s, %s, %s, %d)" % (a[0], a[1], a[2], t[1])); return None
    if s("expect") or s("threadlocal.address") or s("launder") or s("strip") or s("ptrmask"):
        cg.setv(i, a[0]); return None
    if s("eh.typeid.for"):
        cg.setv(i, "S.typeid(%s)" % a[0]); return None
    if s("is.constant"): cg.setv(i, "0"); return None
    if s("is.fpclass"): cg.setv(i, "S.fpclass(%s, %s)" % (a[0], a[1])); return None
    if s("objectsize"): cg.setv(i, str(mask(t[1]))); return None
    if s("stacksave"): cg.setv(i, "0"); return None
    if s("stackrestore"): return None
    if s("trap") or s("ubsantrap"):
        w("    S.trap()"); return None
    raise Unsupported("intrinsic " + nm)

def _m(name):
    def deco(f):
        setattr(Machine, name, f)
        return f
    return deco

@_m("iabs")
def _(S, a, w):
    if a is UNDEF: return UNDEF
    if type(a) is int: return (-S._sg(a, w)) & mask(w) if a >> (w - 1) else a
    return S._s(z3.If(a < 0, -a, a))
@_m("minmax")
def _(S, f, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is int and type(b) is int:
        if f[0] == "s":
            x, y = S._sg(a, w), S._sg(b, w)
        else: x, y = a, b
        return (max(x, y) if f[1:] == "max" else min(x, y)) & mask(w)
    x, y = S._bv(a, w), S._bv(b, w)
    g = {"smax": lambda: x > y, "smin": lambda: x < y, "umax": lambda: z3.UGT(x, y), "umin": lambda: z3.ULT(x, y)}[f]()
    return S._s(z3.If(g, x, y))
@_m("usat")
def _(S, f, a, b, w):
    if type(a) is int and type(b) is int:
        return max(a - b, 0) if f == "usub.sat" else min(a + b, mask(w))
    if a is UNDEF or b is UNDEF: return UNDEF
    x, y = S._bv(a, w), S._bv(b, w)
    if f == "usub.sat": return S._s(z3.If(z3.UGT(x, y), x - y, z3.BitVecVal(0, w)))
    return S._s(z3.If(z3.ULT(x + y, x), z3.BitVecVal(mask(w), w), x + y))
@_m("ovf")
def _(S, f, a, b, w):
    if a is UNDEF or b is UNDEF: return (UNDEF, UNDEF)
    if type(a) is int and type(b) is int:
        if f[0] == "u": x, y = a, b
        else: x, y = S._sg(a, w), S._sg(b, w)
        r = {"mul": x * y, "add": x + y, "sub": x - y}[f[1:]]
        if f[0] == "u": o = r < 0 or r > mask(w)
        else: o = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
        return (r & mask(w), int(o))
    e = z3.ZeroExt if f[0] == "u" else z3.SignExt
    x, y = e(w, S._bv(a, w)), e(w, S._bv(b, w))
    r = {"mul": x * y, "add": x + y, "sub": x - y}[f[1:]]
    lo = z3.Extract(w - 1, 0, r)
    return (S._s(lo), S._sb(e(w, lo) != r))
@_m("ctlz")
def _(S, a, w):
    a = S.concretize(a, w, "ctlz"); return w - a.bit_length()
@_m("cttz")
def _(S, a, w):
    a = S.concretize(a, w, "cttz"); return w if a == 0 else (a & -a).bit_length() - 1
@_m("ctpop")
def _(S, a, w):
    return bin(S.concretize(a, w, "ctpop")).count("1")
@_m("bswap")
def _(S, a, w):
    return int.from_bytes(S.concretize(a, w, "bswap").to_bytes(w // 8, "little"), "big")
@_m("fsh")
def _(S, r, a, b, c, w):
    a = S.concretize(a, w); b = S.concretize(b, w); c = S.concretize(c, w) % w
    v = (a << w) | b
    return ((v << c) >> w) & mask(w) if not r else (v >> c) & mask(w)
@_m("trap")
def _(S): raise PathEnd("abort", "trap instruction")
@_m("copysign")
def _(S, a, b):
    a = _fx(a); b = _fx(b)
    if a is None or b is None: return UNDEF
    m = R.fabs(a)
    return R.ite(RB("lt", b), R.neg(m), m) if R.norm(b).k != "c" else (R.neg(m) if R.nfloat(R.norm(b).a) < 0 else m)
@_m("powi")
def _(S, a, n):
    n = S._sg(S.concretize(n, 32), 32)
    return _fx(a) ** n
@_m("fpclass")
def _(S, a, k):
    return 0 if not (k & ~3) else S.raise_unsup()

GENV = dict(fadd=fadd, fsub=fsub, fmul=fmul, fdiv=fdiv, frem=frem, fneg=fneg, f32=f32, insv=insv, CxxThrow=CxxThrow,
            fcos=fcos, fsin=fsin, fsqrt=fsqrt, ffabs=ffabs)
for _n in ("exp", "log", "pow", "floor", "ceil", "trunc", "round", "rint", "exp2", "log2", "log10", "nearbyint", "fmax", "fmin"):
    GENV["fuf_" + _n] = fuf("rint" if _n == "nearbyint" else _n)

# ------------------------------------------------------------------ exploration
class Path:
    __slots__ = ("machine", "value", "end", "trace")

class Explorer:
    """depth-first enumeration of all feasible decision sequences of a scenario"""
    def __init__(self, mod, scenario, max_paths=2000, deadline=None, tms=5000, machine=None):
        self.machine = machine or Machine
        self.mod, self.scenario = mod, scenario
        self.max_paths, self.deadline = max_paths, deadline
        self.tms = tms
        self.complete = True
        self.stats = dict(paths=0, steps=0, checks=0, tsolve=0.0, unknown=0)
    def run(self):
        work = [()]
        while work:
            if self.stats["paths"] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.complete = False
                return
            prefix = work.pop()
            S = self.machine(self.mod, prefix, self.tms)
            p = Path()
            p.machine, p.end, p.value = S, None, None
            try:
                p.value = self.scenario(S)
            except PathEnd as e:
                p.end = e
            st = self.stats
            st["paths"] += 1; st["steps"] += S.steps; st["checks"] += S.nchecks
            st["tsolve"] += S.tsolve; st["unknown"] += S.unknown
            p.trace = S.trace
            for i in range(len(S.trace) - 1, len(prefix) - 1, -1):
                t = S.trace[i]
                if not t[1]:
                    work.append(tuple(S.trace[:i]) + ((not t[0], True) + tuple(t[2:]),))
            if p.end is not None and p.end.kind == "infeasible":
                continue
            yield p
