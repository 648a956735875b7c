"""Symbolic execution of the Python sources: the real files are executed by the interpreter on proxy values.
Real numbers are exact terms (V), integers z3 integers (SInt); every branch on them forks the path.
The libraries the sources draw with are recorders."""
import ast, builtins, contextlib, io, json, math, os, re, sys, time, types
import numpy
import z3
from fractions import Fraction as F
from . import rterm as R
from .rterm import N, RB
from .llvmir import Unsupported
from .exec import Machine, PathEnd

REPO = os.environ.get("VERIF_REPO", "/repo")
CUR = [None]            # machine of the path being executed
COVERED = set()         # functions of the real sources that were executed

def python():
    """the interpreter with the plotting libraries, if there is one"""
    for p in (os.environ.get("VERIF_PYTHON"), "/opt/boozenv/bin/python"):
        if p and os.path.exists(p): return p
    return sys.executable

class PyMachine(Machine):
    def __init__(self, mod, prefix=(), tms=5000):
        self.prefix, self.trace = prefix, []
        self.solver = z3.Solver(); self.solver.set("timeout", tms)
        self.pc = []; self.unknown = 0; self.nchecks = 0; self.tsolve = 0.0; self.steps = 0
        self.out = []; self.extra = {}; self.calls = []
        self.places = []
        CUR[0] = self
    def where(self): return ""
    def intval(self, e):
        """fork over the values of a z3 integer"""
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        for _ in range(200):
            i = len(self.trace)
            if i < len(self.prefix):
                ok, _, val = self.prefix[i]
                self.trace.append(self.prefix[i])
            else:
                if self.check() != z3.sat: raise PathEnd("infeasible", "path")
                val = self.solver.model().eval(e, model_completion=True).as_long()
                ok = True
                self.trace.append((True, self.check(e != val) == z3.unsat, val))
            c = e == val if ok else e != val
            self.solver.add(c); self.pc.append(c)
            if ok: return val
        raise PathEnd("limit", "too many values")

def place(v):
    S = CUR[0]
    S.places.append(v)
    return Text("\x01%d\x02" % (len(S.places) - 1))
PLACE = re.compile("\x01([0-9]+)\x02")

class SBool:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __bool__(self): return bool(CUR[0].decide(self.c))
    def z(self):
        return CUR[0].zb(self.c) if type(self.c) is RB else self.c
    def __and__(self, o): return sbool(z3.And(self.z(), zbool(o)))
    __rand__ = __and__
    def __or__(self, o): return sbool(z3.Or(self.z(), zbool(o)))
    __ror__ = __or__
    def __invert__(self): return sbool(z3.Not(self.z()))
    def logical_not(self): return ~self
    def __eq__(self, o): return bool(self) == bool(o)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __hash__(self): return hash(bool(self))
def zbool(x): return x.z() if type(x) is SBool else z3.BoolVal(bool(x))
def sbool(c):
    if isinstance(c, (bool, int)): return bool(c)
    if isinstance(c, z3.ExprRef):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
    return SBool(c)

def isint(x): return isinstance(x, (int, numpy.integer)) and not isinstance(x, bool)
class SInt:
    """a symbolic integer"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x): return x.e if type(x) is SInt else z3.IntVal(int(x))
    def _b(self, o, f):
        if type(o) is SInt or isint(o): return sint(f(self.e, SInt.of(o)))
        if isinstance(o, (float, V, F)): return f(V(int(self)), V.of(o))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return sint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return sint(z3.If(self.e >= 0, self.e, -self.e))
    def __truediv__(self, o): return V(int(self)) / o
    def __rtruediv__(self, o): return o / V(int(self))
    def __floordiv__(self, o): return int(self) // int(o)
    def __rfloordiv__(self, o): return int(o) // int(self)
    def __mod__(self, o): return int(self) % int(o)
    def __rmod__(self, o): return int(o) % int(self)
    def __pow__(self, o): return int(self) ** o
    def _c(self, o, f):
        if type(o) is SInt or isint(o) or isinstance(o, bool): return sbool(f(self.e, SInt.of(o)))
        if isinstance(o, (float, V)): return f(V(int(self)), V.of(o))
        return NotImplemented
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return r
    def __hash__(self): return hash(int(self))
    def __bool__(self): return bool(sbool(self.e != 0))
    def __int__(self): return CUR[0].intval(self.e)
    def __index__(self): return CUR[0].intval(self.e)
    def __float__(self): return float(int(self))
    def __str__(self): return place(self)
    def __repr__(self): return place(self)
    def __format__(self, spec): return place(self)
    def cos(self): return V(int(self)).cos()
    def sin(self): return V(int(self)).sin()
    def sqrt(self): return V(int(self)).sqrt()
    def conjugate(self): return self
def sint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)

class V:
    """a real number, as an exact term"""
    __slots__ = ("n",)
    def __init__(self, x): self.n = x if type(x) is N else V.of(x).n
    @staticmethod
    def of(x):
        if type(x) is V: return x
        if type(x) is N: return V(x)
        if type(x) is SInt: return V(R.lift(int(x)))
        if isinstance(x, bool): return V(R.lift(int(x)))
        if isinstance(x, (int, numpy.integer)): return V(R.lift(int(x)))
        if isinstance(x, (float, numpy.floating)): return V(R.lift(float(x)))
        if isinstance(x, F): return V(R.lift(x))
        raise Unsupported("value of type %s" % type(x).__name__)
    def _b(self, o, f):
        if isinstance(o, numpy.ndarray) or not isinstance(o, (V, SInt, int, float, F, numpy.number, N)): return NotImplemented
        return V(f(self.n, V.of(o).n))
    def __add__(self, o): return self._b(o, R.add)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, R.sub)
    def __rsub__(self, o): return self._b(o, lambda a, b: R.sub(b, a))
    def __mul__(self, o): return self._b(o, R.mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, R.div)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: R.div(b, a))
    def __neg__(self): return V(R.neg(self.n))
    def __pos__(self): return self
    def __abs__(self): return V(R.fabs(self.n))
    def __pow__(self, e):
        if isinstance(e, (float, numpy.floating)): e = 0.5 if e == 0.5 else int(e) if float(e).is_integer() else e
        if isinstance(e, numpy.integer): e = int(e)
        if not (isinstance(e, int) or e == 0.5): raise Unsupported("power")
        return V(self.n ** e)
    def cos(self): return V(R.cos(self.n))
    def sin(self): return V(R.sin(self.n))
    def sqrt(self): return V(R.sqrt(self.n))
    def square(self): return self * self
    def conjugate(self): return self
    def copy(self): return self
    def item(self): return self
    real = property(lambda self: self)
    def _c(self, o, op):
        if isinstance(o, numpy.ndarray) or not isinstance(o, (V, SInt, int, float, F, numpy.number)): return NotImplemented
        return sbool(R.cmp(op, R.norm(self.n), R.norm(V.of(o).n)))
    def __lt__(self, o): return self._c(o, "lt")
    def __le__(self, o): return self._c(o, "le")
    def __gt__(self, o): return self._c(o, "gt")
    def __ge__(self, o): return self._c(o, "ge")
    def __eq__(self, o): return self._c(o, "eq")
    def __ne__(self, o): return self._c(o, "ne")
    def __hash__(self): return hash(R.norm(self.n).id)
    def __bool__(self): return bool(self != 0)
    def __float__(self):
        n = R.norm(self.n)
        if n.k == "c": return R.nfloat(n.a)
        raise Unsupported("a symbolic real used as a machine number")
    def __int__(self): return int(float(self))
    def __str__(self): return place(self)
    def __repr__(self): return place(self)
    def __format__(self, spec): return place(self)

# ------------------------------------------------------------------ numpy
def lifted(f):
    u = numpy.frompyfunc(lambda x: f(V.of(x)), 1, 1)
    def g(x, *a, **k):
        if k.get("out") is not None: k["out"][...] = u(x); return k["out"]
        return u(x)
    return g
def objarr(x): return isinstance(x, numpy.ndarray) and x.dtype == object
class NP(types.ModuleType):
    """numpy on arrays of proxies; whatever is not listed here is numpy's own"""
    def __init__(self): super().__init__("numpy")
    def __getattr__(self, k): return getattr(numpy, k)
    pi = property(lambda s: V(R.PI))
    cos = staticmethod(lifted(V.cos)); sin = staticmethod(lifted(V.sin)); sqrt = staticmethod(lifted(V.sqrt))
    @staticmethod
    def _lin(a, b, n, endpoint=True, dtype=None):
        n = int(n); a, b = V.of(a), V.of(b)
        d = (n - 1) if endpoint else n
        out = numpy.empty(n, dtype=object)
        for i in range(n): out[i] = a + (b - a) * F(i, d) if d else a
        return out
    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, **k): return NP._lin(start, stop, num, endpoint)
    @staticmethod
    def _full(shape, v):
        o = numpy.empty(shape, dtype=object); o.fill(v); return o
    @staticmethod
    def zeros(shape, dtype=float, **k): return NP._full(shape, V(0)) if dtype in (float, numpy.float64, object, None, "d") else numpy.zeros(shape, dtype)
    @staticmethod
    def ones(shape, dtype=float, **k): return NP._full(shape, V(1)) if dtype in (float, numpy.float64, object, None, "d") else numpy.ones(shape, dtype)
    @staticmethod
    def empty(shape, dtype=float, **k): return NP._full(shape, None) if dtype in (float, numpy.float64, object, None, "d") else numpy.empty(shape, dtype)
    @staticmethod
    def full(shape, v, dtype=None, **k): return NP._full(shape, V.of(v)) if dtype in (float, None, object) else numpy.full(shape, v, dtype)
    @staticmethod
    def zeros_like(a, dtype=None, **k): return NP._full(numpy.shape(a), V(0)) if objarr(a) and dtype in (None, float) else numpy.zeros_like(a, dtype)
    @staticmethod
    def ones_like(a, dtype=None, **k): return NP._full(numpy.shape(a), V(1)) if objarr(a) and dtype in (None, float) else numpy.ones_like(a, dtype)
    @staticmethod
    def empty_like(a, dtype=None, **k): return NP._full(numpy.shape(a), None) if objarr(a) else numpy.empty_like(a, dtype)
    @staticmethod
    def full_like(a, v, dtype=None, **k): return NP._full(numpy.shape(a), V.of(v)) if objarr(a) else numpy.full_like(a, v, dtype)
    @staticmethod
    def _ext(a, axis, op):
        a = numpy.asarray(a)
        if not objarr(a) or axis is not None: return getattr(numpy, "max" if op == "gt" else "min")(a, axis=axis)
        l = [V.of(x) for x in a.flat]
        m = l[0].n
        for x in l[1:]: m = R.ite(R.cmp(op, R.norm(x.n), R.norm(m)), x.n, m)
        return V(m)
    @staticmethod
    def max(a, axis=None, **k): return NP._ext(a, axis, "gt")
    @staticmethod
    def min(a, axis=None, **k): return NP._ext(a, axis, "lt")
    amax = max; amin = min
    @staticmethod
    def array(a, dtype=None, **k):
        if dtype in (float, numpy.float64, "d", "float"): 
            r = numpy.array(a, dtype=object); u = numpy.frompyfunc(V.of, 1, 1)
            return u(r)
        return numpy.array(a, **({} if dtype is None else {"dtype": dtype}), **k)
    @staticmethod
    def asarray(a, dtype=None, **k): return a if isinstance(a, numpy.ndarray) and dtype in (None, float, object) else NP.array(a, dtype)
    @staticmethod
    def hypot(a, b): return NP.sqrt(a * a + b * b)
    @staticmethod
    def deg2rad(a): return a * NP.pi / 180

# ------------------------------------------------------------------ recorders
class Call:
    """one call of a library function: name, args, kwargs"""
    def __init__(self, name, args, kw): self.name, self.args, self.kw = name, args, kw
    def __repr__(self): return "%s(%d args, %s)" % (self.name, len(self.args), sorted(self.kw))

ALIAS = {"xlabel": "set_xlabel", "ylabel": "set_ylabel", "title": "set_title", "xlim": "set_xlim", "ylim": "set_ylim", "yscale": "set_yscale", "xscale": "set_xscale"}
def snap(x):
    """the argument as it is now"""
    if isinstance(x, numpy.ndarray): return x.copy()
    if type(x) in (list, tuple): return type(x)(snap(y) for y in x)
    if type(x) is dict: return {k: snap(y) for k, y in x.items()}
    return x

class Rec:
    """stands for a module or an object of a plotting library; calls are recorded, and passed on to the real thing if there is one"""
    def __init__(self, log, real=None, prefix="", **attrs):
        self.__dict__.update(_log=log, _real=real, _prefix=prefix, **attrs)
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        real = getattr(self._real, k) if self._real is not None else None
        if real is not None and not callable(real): return real
        log = self._log
        def f(*a, **kw):
            c = Call(ALIAS.get(k, k), [snap(x) for x in a], {n: snap(x) for n, x in kw.items()})
            log.append(c)
            r = None
            if real is not None:
                un = lambda x: x.__dict__["_real"] if isinstance(x, Rec) else x
                r = real(*[un(x) for x in a], **{n: un(x) for n, x in kw.items()})
                if isinstance(r, (list, tuple, type(None), str, int, float, dict)): return r
                c.result = Rec(log, r)
                return c.result
            c.result = Rec(log, None, call=c)
            if k == "subplots": return (Rec(log), Rec(log))
            return c.result
        return f
    def __iter__(self): return iter([Rec(self.__dict__["_log"])] * 1)

# ------------------------------------------------------------------ text with symbolic numbers in it
def has(t): return "\x01" in str.__str__(t)
def only(t):
    """value of a text that is nothing but one number"""
    m = PLACE.fullmatch(str.__str__(t))
    return CUR[0].places[int(m.group(1))] if m else None
def conc(t):
    """the text with its numbers written out (forks over their values)"""
    return PLACE.sub(lambda m: str(int(CUR[0].places[int(m.group(1))])), str.__str__(t)) if isinstance(t, str) and has(t) else str.__str__(t) if type(t) is Text else t
def _wrap(name):
    f = getattr(str, name)
    def g(self, *a):
        r = f(str.__str__(self), *a)
        return Text(r) if isinstance(r, str) else type(r)(Text(x) for x in r)
    return g
def _conc(name):
    f = getattr(str, name)
    return lambda self, *a: f(conc(self), *[conc(x) for x in a])
def _strip(t, f, *a):
    s = str.__str__(t)
    if not a or not a[0] or not has(t): return Text(getattr(str, f)(s, *a))
    c = str.__str__(a[0])
    if any(x in "0123456789" for x in c): return Text(getattr(str, f)(conc(t), *a))
    s = getattr(str, f)(s, c)
    m = PLACE.match(s)
    if "-" in c and f != "rstrip" and m:
        v = CUR[0].places[int(m.group(1))]
        if type(v) is not SInt: return Text(getattr(str, f)(conc(t), *a))
        if v < 0: s = str.__str__(place(-v)) + s[m.end():]
    return Text(s)
def _digit(v):
    # the first digit of a symbolic integer that is not negative
    e = z3.If(v.e < 10, v.e, z3.IntVal(0))
    for k in range(1, 10): e = z3.If(z3.And(v.e >= 10 ** k, v.e < 10 ** (k + 1)), v.e / 10 ** k, e)
    if CUR[0].check(v.e >= 10 ** 10) != z3.unsat: raise Unsupported("first digit of a large integer")
    return place(sint(e))
def contains(y, x):
    """x in y"""
    if isinstance(x, Text) and isinstance(y, str) and has(x):
        v = only(x)
        if type(v) is SInt and not has(y) and all(not c.isdigit() for c in y): return bool(v < 0) and conc(x) in str.__str__(y)
        return conc(x) in conc(y)
    return x in y
def percent(a, b):
    """a % b"""
    if isinstance(a, str) and any(type(x) in (SInt, V) for x in (b if isinstance(b, tuple) else (b,))): a = re.sub(r"%[-+ #0]*[0-9]*(?:\.[0-9]+)?[dieEfFgG]", "%s", a)
    return a % b
class Contains(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.Name))): return n
        return ast.copy_location(ast.Call(ast.Name("__percent", ast.Load()), [n.left, n.right], []), n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.In, ast.NotIn)): return n
        r = ast.Call(ast.Name("__contains", ast.Load()), [n.comparators[0], n.left], [])
        return ast.copy_location(ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r, n)
class Match:
    """a match of the whole text"""
    def __init__(self, t): self.t = t
    def group(self, *a):
        if a not in ((), (0,)): raise Unsupported("part of a match")
        return self.t
    def __getattr__(self, k): raise Unsupported("match." + k)
def _match(k):
    def f(p, t, *a):
        p = p.p if type(p) is Pattern else p
        v = only(t) if isinstance(t, Text) else None
        if type(v) is not SInt or a or re.search("[0-9]", re.sub(r"0-9|\{[0-9,]*\}", "", getattr(p, "pattern", p))): return getattr(re, k)(p, conc(t), *a)
        # all digits are alike to the pattern: what matters is the sign and how many there are
        neg = bool(v < 0); n = 1
        while n < 11 and not bool(abs(v) < 10 ** n): n += 1
        r = "-" * neg + "3" * n
        m = getattr(re, k)(p, r)
        if not m: return None
        if m.group() != r: raise Unsupported("match of a part of a number")
        return Match(t)
    return f
class Pattern:
    def __init__(self, p): self.p = p
    def __getattr__(self, k):
        if k in ("match", "fullmatch"): return lambda t, *a: _match(k)(self.p, t, *a)
        f = getattr(self.p, k)
        return (lambda *a, **kw: f(*[conc(x) for x in a], **kw)) if callable(f) else f
class Re(types.ModuleType):
    """regular expressions on text with symbolic numbers in it"""
    def __init__(self): super().__init__("re")
    def __getattr__(self, k):
        f = getattr(re, k)
        if k in ("match", "fullmatch"): return _match(k)
        if k == "compile": return lambda *a, **kw: Pattern(re.compile(*a, **kw))
        return (lambda *a, **kw: f(*[x.p if type(x) is Pattern else conc(x) for x in a], **kw)) if isinstance(f, types.FunctionType) else f
class Text(str):
    """text read from a file; what depends on the digits of a symbolic number forks"""
    for _n in ("split", "splitlines", "strip", "lstrip", "rstrip", "replace", "partition", "rpartition", "expandtabs", "lower", "upper", "casefold", "rsplit", "join"): locals()[_n] = _wrap(_n)
    for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__len__", "__iter__", "find", "index", "rfind", "count", "endswith", "isalpha", "isalnum", "isspace", "isidentifier", "zfill", "ljust", "rjust", "removesuffix"): locals()[_n] = _conc(_n)
    def lstrip(self, *a): return _strip(self, "lstrip", *a)
    def strip(self, *a): return _strip(self, "strip", *a)
    def rstrip(self, *a): return _strip(self, "rstrip", *a)
    def removeprefix(self, p):
        v = only(self)
        if p == "-" and type(v) is SInt: return place(-v) if v < 0 else self
        if p and p[0] not in "-0123456789" and str.startswith(str.__str__(self), "\x01"): return self
        return Text(conc(self).removeprefix(p))
    def __getitem__(self, k):
        v = only(self)
        if type(v) is SInt:
            # the first character, or the rest after a sign
            if k in (0, slice(None, 1), slice(0, 1)): return Text("-") if v < 0 else _digit(v)
            if k in (slice(1, None),) and v < 0: return place(-v)
        return Text(str.__getitem__(conc(self), k))
    def __bool__(self): return str.__len__(self) > 0
    def __str__(self): return self
    def __format__(self, spec): return str.__str__(self)
    def __eq__(self, o):
        if not isinstance(o, str): return False
        if not has(self) and not has(o): return str.__eq__(self, o)
        u, v = only(self), only(o)
        if u is not None and v is not None: return bool(u == v)
        if u is not None or v is not None:
            w, t = (u, o) if u is not None else (v, self)
            t = str.__str__(t)
            try: k = int(t)
            except ValueError: return False
            return bool(w == k) if str(k) == t else False
        return conc(self) == conc(o)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(conc(str.__str__(self)))
    def __contains__(self, x):
        if has(self) and not any(c in "-0123456789" for c in x): return x in PLACE.sub("0", str.__str__(self)) if x else True
        return x in conc(self)
    def isdigit(self):
        v = only(self)
        return bool(v >= 0) if v is not None else conc(self).isdigit()
    isdecimal = isnumeric = isdigit
    def startswith(self, p, *a):
        v = only(self)
        if not a and has(self):
            # a number starts with a digit or with a minus sign
            ps = p if isinstance(p, tuple) else (p,)
            t = str.__str__(self)
            if t[0] == "\x01":
                r = []
                for q in ps:
                    if q == "": return True
                    if q == "-" and v is not None: r.append(v < 0)
                    elif q[0] in "-0123456789": return conc(self).startswith(p)
                return any(bool(x) for x in r)
            k = t.index("\x01")
            if all(len(q) <= k or not t.startswith(q[:k]) for q in ps): return any(len(q) <= k and t.startswith(q) for q in ps)
        return conc(self).startswith(p, *a)
class TextFile:
    def __init__(self, f): self._f = f
    def read(self, *a): return Text(self._f.read(*a))
    def readline(self, *a): return Text(self._f.readline(*a))
    def readlines(self, *a): return [Text(x) for x in self._f.readlines(*a)]
    def __iter__(self): return (Text(x) for x in self._f)
    def __next__(self): return Text(next(self._f))
    def __enter__(self): return self
    def __exit__(self, *a): self._f.close()
    def close(self): self._f.close()
    def __getattr__(self, k): return getattr(self._f, k)

# ------------------------------------------------------------------ loading the sources
class IntMeta(type):
    def __instancecheck__(c, x): return isinstance(x, int) or type(x) is SInt
    def __subclasscheck__(c, x): return issubclass(x, int)
class IntShim(metaclass=IntMeta):
    def __new__(cls, x=0, *a):
        if type(x) is SInt: return x
        if isinstance(x, str):
            x = str.__str__(x)
            m = PLACE.fullmatch(x.strip())
            if m:
                v = CUR[0].places[int(m.group(1))]
                if type(v) is SInt: return v
                if isint(v): return int(v)
                raise Unsupported("text of a real read as an integer")
            if "\x01" in x:
                # the text of a symbolic number with something attached
                raise ValueError("invalid literal for int()")
        return int(x, *a)

class Loader:
    """executes the Python sources of the package with stand-ins for the libraries and for the extension module"""
    def __init__(self, mods, ext, symbolic, files=None):
        self.mods, self.ext, self.symbolic, self.files = mods, ext, symbolic, files or {}
        self.loaded = {}
        self.stdout = io.StringIO()
        self.opened = []
    def load(self, name):
        if name in self.loaded: return self.loaded[name]
        path = "%s/src/booz_xform/%s.py" % (REPO, name)
        if not os.path.exists(path): raise ImportError("no module named booz_xform." + name)
        m = types.ModuleType("booz_xform." + name)
        m.__package__ = "booz_xform"; m.__file__ = path
        d = dict(vars(builtins))
        d["__import__"] = self._import
        d["open"] = self._open
        if self.symbolic: d["int"] = IntShim
        m.__dict__["__builtins__"] = d
        self.loaded[name] = m
        with builtins.open(path) as f: src = f.read()
        if self.symbolic:
            d["__contains"] = contains; d["__percent"] = percent
            src = ast.fix_missing_locations(Contains().visit(ast.parse(src, path)))
        exec(compile(src, path, "exec"), m.__dict__)
        return m
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split(".")[0] == "booz_xform": name, level = name[len("booz_xform"):].lstrip("."), 1
        if level:
            if name == "": 
                if fromlist and all(hasattr(self.ext, f) for f in fromlist): return self.ext
                pk = types.SimpleNamespace()
                for f in fromlist or ():
                    if hasattr(self.ext, f): setattr(pk, f, getattr(self.ext, f))
                    elif f == "_booz_xform": setattr(pk, f, self.ext)
                    else: setattr(pk, f, self.load(f))
                return pk
            if name == "_booz_xform": return self.ext
            return self.load(name)
        if name in self.mods:
            if fromlist or "." not in name: return self.mods[name]
            return self.mods[name.split(".")[0]]
        top = name.split(".")[0]
        if top in self.mods and name != top: raise ImportError("not available here: " + name)
        return builtins.__import__(name, globals, locals, fromlist, level)
    def _open(self, f, *a, **k):
        self.opened.append(f)
        if f in self.files: return io.StringIO(self.files[f])
        r = builtins.open(f, *a, **k)
        return TextFile(r) if self.symbolic else r
    @contextlib.contextmanager
    def running(self):
        src = REPO + "/src/booz_xform/"
        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(src):
                COVERED.add("%s:%s" % (frame.f_code.co_filename[len(src):], frame.f_code.co_qualname))
        old = sys.getprofile()
        if not COVERED: sys.setprofile(prof)
        try:
            with contextlib.redirect_stdout(self.stdout): yield
        finally: sys.setprofile(old)

def text_parts(t):
    """text -> list of strings and values that were formatted into it"""
    S = CUR[0]
    return [p if i % 2 == 0 else S.places[int(p)] for i, p in enumerate(PLACE.split(t))]

# ------------------------------------------------------------------ backends
class PySym:
    symbolic = True
    def __init__(self, S):
        self.S = S; self.ivars = {}
    def real(self, name): return V(R.var(name))
    def const(self, x): return V.of(x)
    def integer(self, name, lo=None, hi=None):
        v = z3.Int(name); self.ivars[name] = v
        if lo is not None: self.S.assume(v >= lo)
        if hi is not None: self.S.assume(v <= hi)
        return SInt(v)
    def choose(self, name, values): return values[int(self.integer(name, 0, len(values) - 1))]
    def reals(self, shape, namer):
        o = numpy.empty(shape, dtype=object)
        for ix in numpy.ndindex(*o.shape): o[ix] = namer(*ix)
        return o
    def ints(self, l):
        o = numpy.empty(len(l), dtype=object)
        for i, x in enumerate(l): o[i] = x
        return o
    def holds(self, c):
        """condition for the solver"""
        return c.z() if type(c) is SBool else bool(c)
    def loader(self, ext, files=None):
        log = []
        mp = types.ModuleType("matplotlib"); pl = Rec(log); mp.pyplot = pl
        go = Rec(log); pk = types.ModuleType("plotly"); pk.graph_objects = go
        mods = {"re": Re(), "numpy": NP(), "matplotlib": mp, "matplotlib.pyplot": pl, "plotly": pk, "plotly.graph_objects": go}
        return Loader(mods, ext, True, files), log
    def text(self, items): return "".join(x if isinstance(x, str) else place(x) for x in items)
    def node(self, x): return R.norm(V.of(x).n)
    def parts(self, t):
        """text -> strings, numbers and values that were formatted into it"""
        return [y for x in text_parts(t) for y in (numbers(x) if isinstance(x, str) else [x])]

def numbers(t):
    out = []; k = 0
    for m in re.finditer(r"(?<![\w.])-?\d+(\.\d*)?([eE][-+]?\d+)?", t):
        out.append(t[k:m.start()]); s = m.group(0)
        out.append(float(s) if "." in s or "e" in s.lower() else int(s)); k = m.end()
    return out + [t[k:]]

class PyNative:
    """the real libraries, except plotly"""
    symbolic = False
    def __init__(self, vals): self.vals = vals
    def real(self, name):
        v = self.vals.setdefault("r", {}).get(name)
        if v is None:
            import random
            from checks.base import draw
            v = self.vals["r"][name] = draw(name, random.Random(name)) * self.vals.get("big", 1)
        return float(v)
    def const(self, x): return float(x)
    def integer(self, name, lo=None, hi=None): return int(self.vals.get("i", {}).get(name, lo if lo is not None else 0))
    def choose(self, name, values): return values[self.integer(name, 0, len(values) - 1)]
    def reals(self, shape, namer):
        o = numpy.zeros(shape)
        for ix in numpy.ndindex(*o.shape): o[ix] = namer(*ix)
        return o
    def ints(self, l): return numpy.array(l, dtype=int)
    def holds(self, c): return bool(c)
    def loader(self, ext, files=None):
        log = []
        go = Rec(log); pk = types.ModuleType("plotly"); pk.graph_objects = go
        mods = {"plotly": pk, "plotly.graph_objects": go}
        try:
            import matplotlib
            matplotlib.use("Agg")
            import matplotlib.pyplot as real
            real.close("all")
        except ImportError: real = None
        mp = types.ModuleType("matplotlib"); pl = Rec(log, real); mp.pyplot = pl
        mods.update({"matplotlib": mp, "matplotlib.pyplot": pl})
        return Loader(mods, ext, False, files), log
    def text(self, items): return "".join(str(x) for x in items)
    def node(self, x): return float(x)
    def parts(self, t): return numbers(t)
