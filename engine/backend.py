"""The same scenario code runs against the symbolic executor (Sym) and against the natively compiled code (Native)."""
import ctypes as C, json, os, re, subprocess, sys, tempfile
import z3
from . import rterm as R
from .rterm import N
from .llvmir import UNDEF, Unsupported, OBJ, mask
from .exec import PathEnd, CxxThrow

IVECS = "xm xn xm_nyq xn_nyq compute_surfs xm_b xn_b".split()
INTS = "verbose asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq ns_in mboz nboz ns_b mnboz".split()
DBLS = ["aspect", "toroidal_flux"]
VECS = "s_in iota s_b Boozer_G Boozer_G_all Boozer_I Boozer_I_all phi phip chi pres".split()
MATS = ("rmnc rmns zmnc zmns lmnc lmns bmnc bmns bsubumnc bsubumns bsubvmnc bsubvmns "
        "bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b").split()
AVECS = "iotas phip0 chi0 pres0 phi0".split()
AMATS = "rmnc0 rmns0 zmnc0 zmns0 lmnc0 lmns0 bmnc0 bmns0 bsubumnc0 bsubumns0 bsubvmnc0 bsubvmns0".split()
TVECS = ["theta", "zeta"]
TMATS = ["cosm", "sinm", "cosn", "sinn"]
OUT_S = "bmnc_b gmnc_b rmnc_b zmns_b numns_b".split()       # spectra present for symmetric input
OUT_A = "bmns_b gmns_b rmns_b zmnc_b numnc_b".split()       # additional ones for asymmetric input

def kind_of(t, f):
    if t == "B": return "i" if f in IVECS else "v" if f in VECS else "m"
    if t == "A": return "v" if f in AVECS else "m"
    return "v" if f in TVECS else "m"

class NotNative(Exception):
    """the case has no native counterpart"""

class Arr:
    """2d column-major array contents"""
    __slots__ = ("rows", "cols", "a")
    def __init__(self, rows, cols, a): self.rows, self.cols, self.a = rows, cols, a
    def __call__(self, i, j=0): return self.a[j * self.rows + i]
    def shape(self): return (self.rows, self.cols)
    def map(self, f): return Arr(self.rows, self.cols, [f(x) for x in self.a])

class Sym:
    symbolic = True
    def __init__(self, S):
        self.S = S
        self.ivars = {}
    # values
    def real(self, name): return R.var(name)
    def const(self, x): return R.lift(x)
    def integer(self, name, lo=None, hi=None):
        """a symbolic 32-bit integer within [lo,hi]"""
        v = z3.BitVec(name, 32)
        self.ivars[name] = v
        if lo is not None: self.S.assume(v >= lo)
        if hi is not None: self.S.assume(v <= hi)
        return v
    def choose(self, name, values):
        """one of a few concrete values, all explored"""
        v = self.integer(name, 0, len(values) - 1)
        k = self.S.concretize(v, 32, name)
        return values[k]
    def concretize(self, v): 
        if type(v) is int: return v
        x = self.S.concretize(v, 32)
        return x - (1 << 32) if x >> 31 else x
    # calls
    def fn(self, name, *args):
        f = self.S.mod.fns.get(name)
        if f is None or f.decl: raise Unsupported("entry point " + name)
        return self.S.call(f, args)
    def code(self, name, *args):
        return self.S.concretize(self.fn(name, *args), 32)
    def new(self): return self.fn("h_new")
    def cstring(self, s):
        p = self.S.new(len(s) + 1, "heap", "string")
        self.S.write_bytes(p, s + "\0")
        return p
    def argv(self, args):
        a = self.S.new(8 * (len(args) + 1), "heap", "argv")
        for i, s in enumerate(args): self.S.store(a + 8 * i, 8, self.cstring(s))
        self.S.store(a + 8 * len(args), 8, 0)
        return a
    def seti(self, o, f, v, t="B"): self.fn("%s_seti_%s" % (t, f), o, v & mask(32) if type(v) is int else v)
    def geti(self, o, f, t="B"):
        v = self.fn("%s_geti_%s" % (t, f), o)
        if type(v) is int and v >> 31: v -= 1 << 32
        return v
    def setd(self, o, f, v): self.fn("B_setd_" + f, o, R.lift(v))
    def getd(self, o, f):
        v = self.fn("B_getd_" + f, o)
        return R.lift(0) if v == 0 and type(v) is int else v
    def resize(self, o, f, r, c=1, t="B"): self.fn("%s_resize_%s" % (t, f), o, r & mask(64), c & mask(64))
    def shape(self, o, f, t="B"):
        r = self.S.concretize(self.fn("%s_rows_%s" % (t, f), o)); c = self.S.concretize(self.fn("%s_cols_%s" % (t, f), o))
        return r, c
    def put(self, o, f, arr, t="B"):
        """arr: Arr or list"""
        if type(arr) is list: arr = Arr(len(arr), 1, arr)
        self.resize(o, f, arr.rows, arr.cols, t)
        p = self.fn("%s_ptr_%s" % (t, f), o)
        k = kind_of(t, f)
        for i, x in enumerate(arr.a):
            if k == "i": self.S.store(p + 4 * i, 4, x & mask(32) if type(x) is int else x)
            else: self.S.store(p + 8 * i, 8, x if type(x) is N or x is UNDEF else R.lift(x))
    def get(self, o, f, t="B"):
        r, c = self.shape(o, f, t)
        k = kind_of(t, f)
        n = r * c
        out = []
        if n:
            p = self.fn("%s_ptr_%s" % (t, f), o)
            for i in range(n):
                if k == "i":
                    v = self.S.load(p + 4 * i, 4, "i")
                    if type(v) is int and v >> 31: v -= 1 << 32
                else: v = self.S.load(p + 8 * i, 8, "d")
                out.append(v)
        return Arr(r, c, out)
    def run(self, o): return self.code("h_run", o)
    def printed(self):
        """what was printed since the last call: lines of tokens; a number is a token of its own"""
        S = self.S
        k = getattr(self, "_mark", 0); self._mark = len(S.out)
        lines = [[]]
        def text(t):
            for i, part in enumerate(re.split("\x01([0-9]+)\x02", t)):
                if i & 1: lines[-1].append(S.places[int(part)]); continue
                for j, l in enumerate(part.split("\n")):
                    if j: lines.append([])
                    lines[-1].extend(l.split())
        for kind, val, width, tid, hold, stream in S.out[k:]:
            if stream != "cout": continue
            if kind == "str": text(val)
            elif kind in ("int", "dbl"): lines[-1].append(val if kind == "int" or type(val) is N or val is UNDEF else R.lift(val))
            else: lines[-1].append("?" + kind)
        return lines
    def setfile(self, path, dims, vars_):
        """a netCDF input file: vars_ = [(name, 'i'|'d', [dim names], [values])]"""
        from .stubs import NCFile, NC_INT, NC_DOUBLE, NC_CHAR
        f = NCFile()
        for n, l in dims: f.dims.append((n, l))
        dn = dict(dims)
        for n, ty, ds, vals in vars_:
            f.add(n, {"i": NC_INT, "d": NC_DOUBLE, "c": NC_CHAR}[ty], [(d, dn[d]) for d in ds], [0x31] * len(vals) if ty == "c" else [x if ty == "i" else R.lift(x) for x in vals])
        f.closed = True
        self.S.nc[path] = f
    def getfile(self, path):
        f = self.S.nc.get(path)
        if f is None: return None
        out = {}
        for n, ty, ds, atts, data in f.vars:
            if data is not None and ty == 4: data = [(x - (1 << 32) if x >> 31 else x) if type(x) is int else x for x in data]
            if data is not None and ty == 6: data = [R.lift(0) if type(x) is int and x == 0 else x for x in data]
            if data is not None and ty == 2: data = "".join(chr(x) if type(x) is int else "?" for x in data)
            out[n] = dict(type={2: "c", 4: "i", 6: "d"}.get(ty, "?"), dims=[f.dims[d] for d in ds], atts=atts, data=data)
        return dict(dims=list(f.dims), vars=out, closed=f.closed, mode=getattr(f, "mode", 0))

    # threads
    def threads(self, T, order=None, owner=None):
        """T threads executed in the given order; owner[i] = thread of iteration i (contiguous blocks)"""
        S = self.S
        S.omp_T = T
        S.omp_order = (lambda n: [t for t in order if t < n] + [t for t in range(n) if t not in order]) if order else None
        def blk(n, T, tid):
            mine = [i for i in range(n) if (owner[i] if i < len(owner) else T - 1) == tid]
            return (mine[0], mine[-1]) if mine else (0, -1)
        S.omp_blocks = blk if owner else None
    def accesses(self, fn):
        """run fn; -> per parallel region a list of (thread, kind, address, size, locks, phase); kinds 0 read 1 write 2 atomic read 3 atomic write"""
        S = self.S
        regions = []; st = {"on": False, "ph": 0}
        acc = {}
        def log(k, p, n):
            if st["on"] and type(p) is int and type(n) is int and p >> OBJ not in S.mod.tls: acc[(S.tid, k, p, n, S.hold, st["ph"])] = 1
        def hook(S, ev, arg):
            if ev == "fork": st["on"] = True; st["ph"] = 0; acc.clear(); st["first"] = max(S.objs) if S.objs else 0
            elif ev == "join": st["on"] = False; regions.append(list(acc))
            elif ev == "barrier": st["ph"] += 1
        S.omp_hook = hook; S.log = log
        try: r = fn()
        finally: S.omp_hook = None; S.log = None
        return r, regions

    # stand-ins for the operations read_wout, run and write_boozmn
    def mock(self, handler):
        """handler(operation, object, file name) -> does it fail?"""
        self.S.mock = handler
    def settext(self, path, items):
        """a text file: strings and symbolic integers"""
        self.S.files[path] = [x if type(x) is str else ("int", x) for x in items]
    def opened(self): return [x[1] for x in self.S.calls if x[0] == "open"]

    # failing file operations
    def faults_begin(self, limit=2):
        """from now on any operation of the file library may fail, with any error code; at most limit per path"""
        self._flog = []; cnt = [0]
        def hook(S, op, detail):
            k = cnt[0]; cnt[0] += 1
            if len(self._flog) >= limit: return None
            if S.concretize(self.integer("fail%d" % k, 0, 1), 32, "failure") == 0: return None
            e = self.integer("err%d" % k, -150, 150)
            S.assume(e != 0)
            self._flog.append((op, detail if op.startswith("nc_inq") else None, e))
            return e
        self.S.ncfault = hook
    def faults_end(self):
        """-> the injected failures: (operation, name looked up, error code)"""
        self.S.ncfault = None
        return self._flog

class Native:
    """runs inside a child process"""
    symbolic = False
    def __init__(self, so, vals, rng_seed=0, cwd=None):
        self.L = C.CDLL(so)
        self.vals = vals            # {"r": {name: float}, "i": {name: int}}
        self.captured = ""
    def _lookup(self, kind, name, default):
        v = self.vals.get(kind, {}).get(name)
        return default if v is None else v
    def real(self, name):
        v = self._lookup("r", name, None)
        if v is None:
            import random
            from checks.base import draw
            v = draw(name, random.Random(name))
            self.vals.setdefault("r", {})[name] = v
        return v
    def const(self, x):
        if isinstance(x, (int, float)): return float(x)
        return R.nfloat(x.a) if type(x) is N else float(x)
    def integer(self, name, lo=None, hi=None):
        return int(self._lookup("i", name, lo if lo is not None else 0))
    def choose(self, name, values): return values[self.integer(name, 0, len(values) - 1)]
    def concretize(self, v): return v
    def _f(self, name, res, *at):
        f = getattr(self.L, name)
        f.restype = res
        f.argtypes = list(at)
        return f
    def new(self): return self._f("h_new", C.c_void_p)()
    def cstring(self, s): return s.encode()
    def fn(self, name, *args):
        at = [C.c_char_p if type(a) is bytes else C.c_void_p if a is None or a > 1 << 31 else C.c_int for a in args]
        res = C.c_void_p if name in ("h_new", "h_anew", "h_tnew") else C.c_int
        return self._f(name, res, *at)(*args)
    def code(self, name, *args): return self.fn(name, *args)
    def argv(self, args):
        self._argv = (C.c_char_p * (len(args) + 1))(*[a.encode() for a in args], None)
        return C.addressof(self._argv)
    def seti(self, o, f, v, t="B"): self._f("%s_seti_%s" % (t, f), None, C.c_void_p, C.c_int)(o, v)
    def geti(self, o, f, t="B"): return self._f("%s_geti_%s" % (t, f), C.c_int, C.c_void_p)(o)
    def setd(self, o, f, v): self._f("B_setd_" + f, None, C.c_void_p, C.c_double)(o, v)
    def getd(self, o, f): return self._f("B_getd_" + f, C.c_double, C.c_void_p)(o)
    def resize(self, o, f, r, c=1, t="B"): self._f("%s_resize_%s" % (t, f), None, C.c_void_p, C.c_long, C.c_long)(o, r, c)
    def shape(self, o, f, t="B"):
        return (self._f("%s_rows_%s" % (t, f), C.c_long, C.c_void_p)(o), self._f("%s_cols_%s" % (t, f), C.c_long, C.c_void_p)(o))
    def _ptr(self, o, f, t):
        ty = C.c_int if kind_of(t, f) == "i" else C.c_double
        return self._f("%s_ptr_%s" % (t, f), C.POINTER(ty), C.c_void_p)(o)
    def put(self, o, f, arr, t="B"):
        if type(arr) is list: arr = Arr(len(arr), 1, arr)
        self.resize(o, f, arr.rows, arr.cols, t)
        p = self._ptr(o, f, t)
        for i, x in enumerate(arr.a): p[i] = x
    def get(self, o, f, t="B"):
        r, c = self.shape(o, f, t)
        p = self._ptr(o, f, t)
        return Arr(r, c, [p[i] for i in range(r * c)])
    def run(self, o): return self.code("h_run", o)
    def printed(self):
        self.L.fflush(None)
        try: t = open("stdout.txt").read()
        except OSError: t = ""
        k = getattr(self, "_mark", 0); self._mark = len(t)
        def tok(x):
            for f in (int, float):
                try: return f(x)
                except ValueError: pass
            return x
        return [[tok(x) for x in l.split()] for l in t[k:].split("\n")]
    def setfile(self, path, dims, vars_):
        from . import ncfile
        ncfile.write(path, dims, vars_)
    def getfile(self, path):
        from . import ncfile
        return ncfile.read(path)
    def threads(self, T, order=None, owner=None):
        if hasattr(self.L, "h_omp"): self.fn("h_omp", T, {"desc": 1, "free": 2}.get(os.environ.get("VERIF_ORDER"), 0))
        else: self.L.omp_set_num_threads(T)
    def accesses(self, fn): return fn(), []
    def mock(self, handler):
        if not hasattr(self.L, "h_mock"): raise NotNative("no stand-ins in this build")
        t = C.CFUNCTYPE(C.c_int, C.c_int, C.c_void_p, C.c_char_p)
        ops = ["read_wout", "run", "write_boozmn"]
        self._cb = t(lambda k, o, n: int(bool(handler(ops[k], o, n.decode())))) if handler else t(0)
        f = self.L.h_mock; f.restype = None; f.argtypes = [t]
        f(self._cb)
    def settext(self, path, items):
        with open(path, "w", newline="") as f: f.write("".join(str(x) for x in items))
    def opened(self): return []
    def faults_begin(self, limit=2):
        if not hasattr(self.L, "h_fault_reset"): raise NotNative("no fault injection in this build")
        self.fn("h_fault_reset")
        for n, v in self.vals.get("i", {}).items():
            if n.startswith("fail") and v == 1:
                k = int(n[4:])
                self.fn("h_fault_add", k, int(self.vals["i"].get("err%d" % k, 0)) or -33)
    def faults_end(self):
        f = self._f("h_fault_log", C.c_char_p)
        out = []
        for l in f().decode().splitlines():
            op, detail, e = l.split("\t")
            out.append((op, detail or None, int(e)))
        return out
