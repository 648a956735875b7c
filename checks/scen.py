"""Equilibrium descriptions and the operations on objects, written once for symbolic and native execution."""
import random
from fractions import Fraction as F
from engine import rterm as R
from engine.backend import Arr, IVECS, INTS, DBLS, VECS, MATS, AVECS, AMATS, OUT_S, OUT_A

NONNYQ_S = ["rmnc", "zmns", "lmns"]
NONNYQ_A = ["rmns", "zmnc", "lmnc"]
NYQ_S = ["bmnc", "bsubumnc", "bsubvmnc"]
NYQ_A = ["bmns", "bsubumns", "bsubvmns"]
OUTS = OUT_S + OUT_A

def modes(mpol, ntor, nfp=1, order=None):
    """VMEC ordering: m=0..mpol-1, n=-ntor..ntor (n>=0 for m=0)"""
    l = [(m, n * nfp) for m in range(mpol) for n in range(0 if m == 0 else -ntor, ntor + 1)]
    return l

class Eq:
    """shape of an equilibrium: mode tables (n already times nfp), symmetry, radial size"""
    def __init__(self, asym=False, nfp=1, modes=((0, 0),), nyq=((0, 0),), mpol=None, ntor=None, mpol_nyq=None, ntor_nyq=None, ns_in=1, tag=""):
        self.asym, self.nfp = asym, nfp
        self.modes, self.nyq = list(modes), list(nyq)
        self.mpol = max([m for m, _ in modes]) + 1 if mpol is None else mpol
        self.ntor = max([abs(n) // nfp for _, n in modes]) if ntor is None else ntor
        self.mpol_nyq = max([m for m, _ in nyq]) if mpol_nyq is None else mpol_nyq
        self.ntor_nyq = max([abs(n) // nfp for _, n in nyq]) if ntor_nyq is None else ntor_nyq
        self.ns_in = ns_in
        self.tag = tag
    def key(self):
        return dict(asym=self.asym, nfp=self.nfp, modes=self.modes, nyq=self.nyq, mpol=self.mpol, ntor=self.ntor, mpol_nyq=self.mpol_nyq,
                    ntor_nyq=self.ntor_nyq, ns_in=self.ns_in)

class Data:
    """the input numbers of an equilibrium: dict field -> Arr / list"""
    pass

def default_value(b, eq, field, i, j):
    return b.real("%s%s[%d,%d]" % (eq.tag, field, i, j))

def make_data(b, eq, value=None, asym_fields=None):
    """value(field,i,j) -> number"""
    v = value or (lambda f, i, j: default_value(b, eq, f, i, j))
    D = {}
    asym = eq.asym if asym_fields is None else asym_fields
    for f in NONNYQ_S + (NONNYQ_A if asym else []):
        D[f] = Arr(len(eq.modes), eq.ns_in, [v(f, i, j) for j in range(eq.ns_in) for i in range(len(eq.modes))])
    for f in NYQ_S + (NYQ_A if asym else []):
        D[f] = Arr(len(eq.nyq), eq.ns_in, [v(f, i, j) for j in range(eq.ns_in) for i in range(len(eq.nyq))])
    D["iota"] = [v("iota", j, 0) for j in range(eq.ns_in)]
    D["s_in"] = [v("s_in", j, 0) for j in range(eq.ns_in)]
    return D

def setup(b, o, eq, D, surfs=None, mboz=None, nboz=None, verbose=0):
    """put an equilibrium into the object through its public fields"""
    b.seti(o, "asym", int(eq.asym))
    for f in ("nfp", "mpol", "ntor", "mpol_nyq", "ntor_nyq", "ns_in"): b.seti(o, f, getattr(eq, f))
    b.seti(o, "mnmax", len(eq.modes)); b.seti(o, "mnmax_nyq", len(eq.nyq))
    b.put(o, "xm", [m for m, _ in eq.modes]); b.put(o, "xn", [n for _, n in eq.modes])
    b.put(o, "xm_nyq", [m for m, _ in eq.nyq]); b.put(o, "xn_nyq", [n for _, n in eq.nyq])
    for f, a in D.items(): b.put(o, f, a)
    b.put(o, "compute_surfs", list(surfs) if surfs is not None else list(range(eq.ns_in)))
    settings(b, o, None, mboz, nboz, verbose)

def settings(b, o, surfs=None, mboz=None, nboz=None, verbose=None):
    if surfs is not None: b.put(o, "compute_surfs", list(surfs))
    if mboz is not None: b.seti(o, "mboz", mboz)
    if nboz is not None: b.seti(o, "nboz", nboz)
    if verbose is not None: b.seti(o, "verbose", verbose)

RES_I = ["ns_b", "mnboz"]
RES_IV = ["xm_b", "xn_b"]
RES_V = ["s_b", "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all"]
def results(b, o):
    r = {f: b.geti(o, f) for f in RES_I}
    for f in RES_IV + RES_V + OUTS: r[f] = b.get(o, f)
    return r
IN_I = "asym nfp mpol ntor mnmax mpol_nyq ntor_nyq mnmax_nyq ns_in mboz nboz".split()
IN_A = ["xm", "xn", "xm_nyq", "xn_nyq", "compute_surfs", "s_in", "iota", "phi", "phip", "chi", "pres"] + NONNYQ_S + NONNYQ_A + NYQ_S + NYQ_A
def inputs(b, o):
    r = {f: b.geti(o, f) for f in IN_I}
    for f in DBLS: r[f] = b.getd(o, f)
    for f in IN_A: r[f] = b.get(o, f)
    return r

class Names:
    symbolic = True
    def real(self, n): return R.var(n)
    def const(self, x): return R.lift(x)
NAMES = Names()

def q(asym, nfp, ml, ny, mboz, nboz, **k):
    L = lambda l: [x if type(x) is str else list(x) for x in l]
    d = dict(asym=asym, nfp=nfp, modes=L(ml), nyq=L(ny), mboz=mboz, nboz=nboz)
    d.update(k)
    return d

def perm(l):
    """(0,0) first, the others reversed and interleaved; the last one keeps the largest n"""
    l = list(l); h = l[1:]
    h = h[::-2] + h[::2] if len(h) > 2 else h
    h = [x for i, x in enumerate(h) if x not in h[:i]] + [x for x in l[1:] if x not in h]
    return l[:1] + h

def shape(b, case):
    ml, ny = [list(x) if x != "x" else x for x in case["modes"]], [list(x) if x != "y" else x for x in case["nyq"]]
    kw = {}
    if "xr" in case:
        mm, nn = case["xr"]; nfp = case["nfp"]
        al = [[m, n * nfp] for m in range(mm + 1) for n in range(-nn, nn + 1) if (m, n) != (0, 0)]
        which = case["which"] if "which" in case else b.choose("which", [0, 1])
        x = b.choose("mode", al)
        ml = [x if y == "x" and which == 0 else ([1, 0] if y == "x" else y) for y in ml]
        ny = [x if y == "y" and which == 1 else (([0, nfp] if nn else [1, 0]) if y == "y" else y) for y in ny]
        kw = dict(mpol=mm + 2, ntor=nn + 1, mpol_nyq=mm + 1, ntor_nyq=nn + 1)
    for k in ("mpol", "ntor"):
        if k in case: kw[k] = case[k]
    ml = [tuple(x) for x in ml]; ny = [tuple(x) for x in ny]
    if "mpol" not in kw: kw["mpol"] = max(2, max(m for m, _ in ml) + 1)
    if "mpol_nyq" not in kw: kw["mpol_nyq"] = max(1, max(m for m, _ in ny))
    return Eq(case["asym"], case["nfp"], ml, ny, ns_in=case.get("ns_in", 1), **kw)


# ------------------------------------------------------------------ full-grid (VMEC) data and its import
VM = ["rmnc0", "zmns0", "lmns0", "bmnc0", "bsubumnc0", "bsubvmnc0"]
VM_A = ["rmns0", "zmnc0", "lmnc0", "bmns0", "bsubumns0", "bsubvmns0"]
FLUX = ["phip0", "chi0", "pres0", "phi0"]
def is_nyq(f): return f[0] == "b"
def vmec_data(b, eq, ns, flux=False, asym=None, value=None):
    """eq gives the mode tables; amplitudes on ns full-grid points (names like rmnc0[0,1])"""
    v = value or (lambda f, i, j: b.real("%s%s[%d,%d]" % (eq.tag, f, i, j)))
    D = {}
    for f in VM + (VM_A if (eq.asym if asym is None else asym) else []):
        n = len(eq.nyq if is_nyq(f) else eq.modes)
        D[f] = Arr(n, ns, [v(f, i, j) for j in range(ns) for i in range(n)])
    for f in ["iotas"] + (FLUX if flux else []): D[f] = Arr(ns, 1, [v(f, j, 0) for j in range(ns)])
    return D

def vmec_header(b, o, eq, nfp=None):
    b.seti(o, "asym", int(eq.asym))
    for f in ("nfp", "mpol", "ntor", "mpol_nyq", "ntor_nyq"): b.seti(o, f, getattr(eq, f) if f != "nfp" or nfp is None else nfp)
    b.seti(o, "mnmax", len(eq.modes)); b.seti(o, "mnmax_nyq", len(eq.nyq))
    b.put(o, "xm", [m for m, _ in eq.modes]); b.put(o, "xn", [n for _, n in eq.modes])
    b.put(o, "xm_nyq", [m for m, _ in eq.nyq]); b.put(o, "xn_nyq", [n for _, n in eq.nyq])

def vmec_call(b, o, D, ns, flux=False):
    a = b.fn("h_anew")
    for f, x in D.items(): b.put(a, f, x, "A")
    r = b.code("h_import_flux" if flux else "h_import", o, a, ns)
    b.fn("h_adelete", a)
    return r

def vmec_import(b, o, eq, D, ns, flux=False, verbose=0):
    b.seti(o, "verbose", verbose)
    vmec_header(b, o, eq)
    return vmec_call(b, o, D, ns, flux)

# VMEC output file: variable of the file for every import argument
WOUT = {"rmnc0": "rmnc", "zmns0": "zmns", "lmns0": "lmns", "bmnc0": "bmnc", "bsubumnc0": "bsubumnc", "bsubvmnc0": "bsubvmnc",
        "rmns0": "rmns", "zmnc0": "zmnc", "lmnc0": "lmnc", "bmns0": "bmns", "bsubumns0": "bsubumns", "bsubvmns0": "bsubvmns",
        "iotas": "iotas", "phip0": "phipf", "chi0": "chi", "pres0": "pres", "phi0": "phi"}
def wout_vars(b, eq, ns, D, aspect, flux=True, extra=()):
    """dims and variables of a VMEC output file with these data"""
    dims = [("radius", ns), ("mn_mode", len(eq.modes)), ("mn_mode_nyq", len(eq.nyq))]
    V = [("lasym__logical__", "i", [], [int(eq.asym)])]
    for n, x in (("ns", ns), ("nfp", eq.nfp), ("mpol", eq.mpol), ("ntor", eq.ntor), ("mnmax", len(eq.modes)), ("mnmax_nyq", len(eq.nyq))): V.append((n, "i", [], [x]))
    V.append(("aspect", "d", [], [aspect]))
    for n, l, d in (("xm", [m for m, _ in eq.modes], "mn_mode"), ("xn", [n for _, n in eq.modes], "mn_mode"),
                    ("xm_nyq", [m for m, _ in eq.nyq], "mn_mode_nyq"), ("xn_nyq", [n for _, n in eq.nyq], "mn_mode_nyq")):
        V.append((n, "d", [d], [b.const(x) for x in l]))
    for f, x in D.items():
        if x.cols == 1 and f in ["iotas"] + FLUX: V.append((WOUT[f], "d", ["radius"], list(x.a)))
        else: V.append((WOUT[f], "d", ["radius", "mn_mode_nyq" if is_nyq(f) else "mn_mode"], list(x.a)))
    return dims, V + list(extra)

def boozmn_vars(b, asym, nfp, ns, surfs, mboz, nboz, zero=(), tag="", tab=None):
    """dims and variables of a result file with arbitrary values"""
    tab = tab or [(m, n * nfp) for m in range(mboz) for n in range(0 if m == 0 else -nboz, nboz + 1)]
    nm, nb = len(tab), len(surfs)
    dims = [("radius", ns), ("mn_mode", nm), ("mn_modes", nm), ("comput_surfs", nb), ("pack_rad", nb)]
    V = [(n, "i", [], [x]) for n, x in (("lasym__logical__", int(asym)), ("ns_b", ns), ("nfp_b", nfp), ("mboz_b", mboz), ("nboz_b", nboz), ("mnboz_b", nm))]
    z = b.const(0)
    V += [(n, "d", [], [b.real(tag + n) if n == "aspect_b" else z]) for n in ("aspect_b", "rmax_b", "rmin_b", "betaxis_b")]
    V += [("jlist", "i", ["comput_surfs"], [s + 2 for s in surfs]), ("ixm_b", "i", ["mn_modes"], [m for m, _ in tab]), ("ixn_b", "i", ["mn_modes"], [n for _, n in tab])]
    for n in ("iota_b", "buco_b", "bvco_b", "beta_b", "phip_b", "chi_b", "pres_b", "phi_b"):
        V.append((n, "d", ["radius"], [z if n in zero or n == "beta_b" or (j == 0 and n not in ("chi_b", "pres_b", "phi_b")) else b.real("%s%s[%d]" % (tag, n, j)) for j in range(ns)]))
    for n in "bmnc_b rmnc_b zmns_b pmns_b gmn_b".split() + ("bmns_b rmns_b zmnc_b pmnc_b gmns_b".split() if asym else []):
        V.append((n, "d", ["pack_rad", "mn_modes"], [b.real("%s%s[%d,%d]" % (tag, n, i, j)) for j in range(nb) for i in range(nm)]))
    return dims, V


# file names: usual, without suffix, long, with characters that mean something elsewhere
FNAMES = ["boozmn_x.nc", "x", "b" * 180 + ".nc", "a b.%s{0}.NC4", "out.h5"]
