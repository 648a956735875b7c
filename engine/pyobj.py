"""The extension module as Python sees it: over the stand-in of pybind11 in the symbolic executor (mixed into Sym), or the real module (Native).
Values: ("i", integer) ("b", 0 or 1) ("d", real) ("s", text) ("I", 1d Arr of integers) ("V", 1d Arr of reals) ("M", 2d Arr of reals) ("0", None)"""
import ctypes as C, importlib, os, sys
import z3
from . import rterm as R
from .rterm import N
from .backend import Arr, Sym, Native as _Native
from .llvmir import mask, UNDEF, Unsupported

CLS = "Booz_xform"
def arr(x): return x if isinstance(x, Arr) else Arr(len(x), 1, list(x))

class PySym:
    """operations on a Sym backend"""
    def __init__(self, b):
        self.b = b
        b.fn("pyb_init")
    def fn(self, name, *a): return self.b.fn(name, *a)
    def value(self, v):
        b, (k, x) = self.b, v
        p = self.fn("pv_new")
        if k == "i": self.fn("pv_int", p, x & mask(64) if type(x) is int else z3.SignExt(32, x))
        elif k == "b": self.fn("pv_bool", p, x)
        elif k == "d": self.fn("pv_dbl", p, R.lift(x))
        elif k == "s": self.fn("pv_str", p, b.cstring(x))
        elif k in "IVM":
            x = arr(x)
            q = self.fn("pv_iarray" if k == "I" else "pv_darray", p, 2 if k == "M" else 1, x.rows, x.cols)
            for i, y in enumerate(x.a):
                if k == "I": b.S.store(q + 4 * i, 4, y & mask(32) if type(y) is int else y)
                else: b.S.store(q + 8 * i, 8, y if type(y) is N else R.lift(y))
        return p
    def unvalue(self, p):
        b = self.b
        k = b.code("pv_kind", p)
        if k == 0: return ("0", None)
        if k in (1, 2):
            v = self.fn("pv_geti", p)
            if type(v) is int: v = v - (1 << 64) if v >> 63 else v
            else: v = z3.simplify(z3.Extract(31, 0, v))
            return ("i" if k == 1 else "b", v)
        if k == 3:
            v = self.fn("pv_getd", p)
            return ("d", R.lift(0) if type(v) is int and v == 0 else v)
        if k == 4: return ("s", b.S.cstr(self.fn("pv_gets", p)))
        r, c = b.S.concretize(self.fn("pv_rows", p)), b.S.concretize(self.fn("pv_cols", p))
        q = self.fn("pv_ip" if k == 5 else "pv_dp", p) if r * c else 0
        out = []
        for i in range(r * c):
            if k == 5:
                v = b.S.load(q + 4 * i, 4, "i")
                if type(v) is int and v >> 31: v -= 1 << 32
            else: v = b.S.load(q + 8 * i, 8, "d")
            out.append(v)
        nd = b.code("pv_ndim", p)
        return ("I" if k == 5 else "V" if nd == 1 else "M", Arr(r, c, out))
    def _call(self, cls, name, o, pos, kw):
        b = self.b
        P = b.S.new(8 * max(len(pos), 1), "heap", "args")
        for i, v in enumerate(pos): b.S.store(P + 8 * i, 8, self.value(v))
        K = b.S.new(8 * max(len(kw), 1), "heap", "names"); V = b.S.new(8 * max(len(kw), 1), "heap", "values")
        for i, (n, v) in enumerate(kw): b.S.store(K + 8 * i, 8, b.cstring(n)); b.S.store(V + 8 * i, 8, self.value(v))
        ret, made = self.fn("pv_new"), b.S.new(8, "heap", "made")
        b.S.store(made, 8, 0)
        c = b.code("pyb_call", b.cstring(cls), b.cstring(name), o, len(pos), P, len(kw), K, V, ret, made)
        return c, ret, made
    def new(self, *pos):
        c, _, made = self._call(CLS, "__init__", 0, pos, [])
        return c, (self.b.S.load(made, 8, "i") if not c else 0)
    def cpp(self, o): return o
    def call(self, o, name, pos=(), kw=()):
        """-> (0 or the kind of failure, result)"""
        c, ret, _ = self._call(CLS, name, o, list(pos), list(kw))
        return c, None if c else self.unvalue(ret)
    def function(self, name, pos=()):
        c, ret, _ = self._call("", name, 0, list(pos), [])
        return c, None if c else self.unvalue(ret)
    def get(self, o, name):
        ret = self.fn("pv_new")
        c = self.b.code("pyb_get", self.b.cstring(CLS), self.b.cstring(name), o, ret)
        return c, None if c else self.unvalue(ret)
    def set(self, o, name, v): return self.b.code("pyb_set", self.b.cstring(CLS), self.b.cstring(name), o, self.value(v))

class PyReal:
    """the same over the real module"""
    def __init__(self, b):
        self.b = b
        sys.path.insert(0, os.path.dirname(b.so))
        self.m = importlib.import_module("_booz_xform")
    def value(self, v):
        import numpy as np
        k, x = v
        if k in "IVM":
            x = arr(x)
            if k != "M": return np.array([int(y) if k == "I" else float(y) for y in x.a], dtype=np.int32 if k == "I" else float)
            return np.array([[float(x(i, j)) for j in range(x.cols)] for i in range(x.rows)], dtype=float).reshape(x.rows, x.cols)
        return {"i": int, "b": bool, "d": float, "s": str}[k](x)
    def unvalue(self, x):
        import numpy as np
        if x is None: return ("0", None)
        if isinstance(x, bool): return ("b", int(x))
        if isinstance(x, int): return ("i", x)
        if isinstance(x, float): return ("d", x)
        if isinstance(x, str): return ("s", x)
        r, c = (x.shape[0], 1) if x.ndim == 1 else x.shape
        y = [(x[i] if x.ndim == 1 else x[i, j]) for j in range(c) for i in range(r)]
        if x.dtype.kind == "i": return ("I", Arr(r, c, [int(v) for v in y]))
        return ("V" if x.ndim == 1 else "M", Arr(r, c, [float(v) for v in y]))
    def _do(self, f):
        try: return 0, f()
        except TypeError: return 3, None
        except AttributeError: return 4, None
        except Exception: return 1, None
    def new(self, *pos): return self._do(lambda: self.m.Booz_xform(*[self.value(v) for v in pos]))
    def cpp(self, o):
        f = self.b.P.h_unwrap; f.restype = C.c_void_p; f.argtypes = [C.py_object]
        return f(o)
    def call(self, o, name, pos=(), kw=()):
        c, r = self._do(lambda: getattr(o, name)(*[self.value(v) for v in pos], **{n: self.value(v) for n, v in kw}))
        return c, None if c else self.unvalue(r)
    def function(self, name, pos=()):
        c, r = self._do(lambda: getattr(self.m, name)(*[self.value(v) for v in pos]))
        return c, None if c else self.unvalue(r)
    def get(self, o, name):
        c, r = self._do(lambda: getattr(o, name))
        return c, None if c else self.unvalue(r)
    def set(self, o, name, v): return self._do(lambda: setattr(o, name, self.value(v)))[0]

class Native(_Native):
    def __init__(self, so, vals):
        _Native.__init__(self, so, vals)
        self.so = so
        self.P = C.PyDLL(so)

def module(b): return PySym(b) if b.symbolic else PyReal(b)
