"""Common parts of the checks of the Python layer: a results object with symbolic content, comparison helpers."""
import types
import numpy
from engine import rterm as R
from engine.rterm import N
from engine.pysym import V, SInt, SBool, CUR, Call, PathEnd
from engine.llvmir import Unsupported

class Ext:
    """stands for the extension module"""
    def __init__(self, fill):
        log = self.log = []
        class Booz_xform:
            def read_boozmn(self, name, *a):
                log.append(("read_boozmn", name, self)); fill(self)
        self.Booz_xform = Booz_xform
        self.__version__ = "0"
        self.omp_max_threads = lambda: 1

FIELDS = ("xm_b", "xn_b", "bmnc_b", "bmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b", "numnc_b", "numns_b", "gmnc_b", "gmns_b", "s_b", "compute_surfs",
          "xm", "xn", "rmnc", "rmns", "zmnc", "zmns")
def table(mmax, nmax, nfp):
    """all the modes of a Boozer table"""
    return [(m, n * nfp) for m in range(mmax + 1) for n in range(0 if m == 0 else -nmax, nmax + 1)]
def results(b, case, modes, names=("bmnc", "rmnc", "zmns", "numns", "gmnc"), orig=None):
    """dict of the attributes of a results object with the given output modes"""
    ns, asym, nfp = case["ns"], case.get("asym", 0), case.get("nfp", 1)
    mn = len(modes)
    d = dict(nfp=nfp, asym=bool(asym), mnboz=mn, ns_b=ns, ns_in=case.get("ns_in", ns + 1), verbose=0, mboz=max([1] + [abs(m) for m, _ in modes if isinstance(m, int)]), nboz=1)
    d["xm_b"] = b.ints([m for m, _ in modes]); d["xn_b"] = b.ints([n for _, n in modes])
    for k in ("bmnc", "rmnc", "zmns", "numns", "gmnc") + (("bmns", "rmns", "zmnc", "numnc", "gmns") if asym else ()):
        d[k + "_b"] = b.reals((mn, ns), lambda i, j, k=k: b.real("%s_b[%d,%d]" % (k, i, j)))
    for k in ("bmns", "rmns", "zmnc", "numnc", "gmns") if not asym else (): d[k + "_b"] = b.reals((0, 0), None)
    d["s_b"] = b.reals((ns,), lambda j: b.real("sroot[%d]" % j) * b.real("sroot[%d]" % j) + b.const(0.125) * j)
    js = case.get("surfs", list(range(1, ns + 1)))
    d["compute_surfs"] = numpy.array(js, dtype=int)
    om = orig or []
    d["mnmax"] = len(om); d["mpol"] = d["ntor"] = 1
    d["xm"] = b.ints([m for m, _ in om]); d["xn"] = b.ints([n for _, n in om])
    for k in ("rmnc", "zmns") + (("rmns", "zmnc") if asym else ()):
        d[k] = b.reals((len(om), d["ns_in"]) if om else (0, 0), lambda i, j, k=k: b.real("%s[%d,%d]" % (k, i, j)))
    for k in ("rmns", "zmnc") if not asym else (): d[k] = b.reals((0, 0), None)
    return d

def make(b, case, d):
    """-> (extension, argument for the plot functions, object holding the results or None)"""
    def fill(o):
        for k, v in ext.cur.items(): setattr(o, k, v.copy() if isinstance(v, numpy.ndarray) else v)
    ext = Ext(fill)
    ext.cur, ext.fill = d, fill
    if case.get("file"): return ext, "boozmn_check.nc", None
    o = ext.Booz_xform(); fill(o)
    return ext, o, o

def before(b, case, ext, arg, o, d, lo, log, f, opt):
    """the function is called before with other contents of the same file or object"""
    if not case.get("again"): return None
    old = {k: v.copy() if isinstance(v, numpy.ndarray) else v for k, v in d.items()}
    for k, v in old.items():
        if isinstance(v, numpy.ndarray) and v.size and (k.endswith("_b") and k[0] not in "x" or k in ("rmnc", "rmns", "zmnc", "zmns")):
            for n, ix in enumerate(numpy.ndindex(*v.shape)): v[ix] = b.const(1) * (n + 2) / 8
    if case["again"] == 2: old["nfp"] = d["nfp"] + 1
    ext.cur = old
    if o is not None: ext.fill(o)
    r, exc = call(lo, f, arg, **opt)
    ext.cur = d
    if o is not None: ext.fill(o)
    del log[:], ext.log[:]
    return exc
def call(lo, f, *a, **k):
    """-> (value, exception)"""
    with lo.running():
        try: return f(*a, **k), None
        except (PathEnd, Unsupported, R.TooBig): raise
        except Exception as e:
            import traceback
            return None, "%s: %s | %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3].strip())

def load(b, ext, name, files=None):
    lo, log = b.loader(ext, files)
    try: return lo, log, lo.load(name), None
    except (PathEnd, Unsupported): raise
    except Exception as e: return lo, log, None, "%s: %s" % (type(e).__name__, e)

def grid(x): return numpy.asarray(x, dtype=object) if CUR[0] is not None else numpy.asarray(x, dtype=float)
def close(ob, b, lab, got, want, scale=1.0):
    """two arrays of reals"""
    got = numpy.asarray(got, dtype=object); want = numpy.asarray(want, dtype=object)
    ob.eq(lab + ".shape", tuple(got.shape), tuple(want.shape))
    if got.shape != want.shape: return
    for ix in numpy.ndindex(*got.shape):
        if got[ix] is None: ob.true("%s%s is set" % (lab, ix), False); continue
        ob.real("%s%s" % (lab, list(ix)), b.node(got[ix]), b.node(want[ix]), scale)
def unchanged(ob, b, lab, o, d):
    for k, v in d.items():
        w = getattr(o, k)
        if isinstance(v, numpy.ndarray):
            ob.eq(lab + k + ".shape", tuple(numpy.shape(w)), tuple(v.shape))
            if numpy.shape(w) != v.shape: continue
            for x, y in zip(numpy.asarray(w, dtype=object).flat, v.flat):
                if x is y: continue
                if isinstance(x, (SInt, int, numpy.integer)) and isinstance(y, (SInt, int, numpy.integer)): ob.true(lab + k, b.holds(x == y))
                else: ob.real(lab + k, b.node(x), b.node(y))
        else: ob.true(lab + k, type(w) is type(v) and w == v)
def linspace(b, lo, hi, n):
    """uniform grid from lo to hi"""
    return [lo + (hi - lo) * (b.const(1) * i / (n - 1)) if n > 1 else lo for i in range(n)]
def pi(b): return V(R.PI) if b.symbolic else numpy.pi
def cos(x): return x.cos() if isinstance(x, V) else numpy.cos(x)
def sin(x): return x.sin() if isinstance(x, V) else numpy.sin(x)
def sqrt(x): return x.sqrt() if isinstance(x, V) else numpy.sqrt(x)
def series(b, modes, th, ph, c=None, s=None):
    """sum of c_i cos(m th - n ph) + s_i sin(m th - n ph)"""
    t = b.const(0)
    for i, (m, n) in enumerate(modes):
        a = b.const(int(m)) * th - b.const(int(n)) * ph
        if c is not None: t = t + c[i] * cos(a)
        if s is not None: t = t + s[i] * sin(a)
    return t
