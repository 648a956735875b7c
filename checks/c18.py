"""C18: surfplot draws |B| of the selected surface over one field period."""
import numpy
from .pyscen import *

PY = True
NVAL = 24
RTOL = 1e-9
BOUNDS = ("surfplot and handle_b_input are executed from the source with symbolic amplitudes and flux labels; 1 to 3 output modes, one of them with symbolic numbers |m| <= 3, |n| <= 2 nfp, and whole tables of up to m = 9 and |n| = 8 nfp (thorough: 20, 16); "
          "1 to 3 surfaces, each selected; both symmetries; nfp 1 to 5; grids up to 5 x 4 (whole tables: 4 x 6) points; filled and line contours, with and without extra options; object and file name, also called before with other contents of the same object or file")
OUTSIDE = "larger tables and grids; what matplotlib does with the data it is given"
ASSUMPTIONS = ["numpy and matplotlib do what their documentation says; matplotlib calls are recorded", "arithmetic over the reals"]

def cases(tier, seed):
    out = []
    for nfp in (1, 2, 5):
        for asym in (0, 1):
            for js in range(3):
                out.append(dict(nfp=nfp, asym=asym, ns=3, js=js, nt=4 if js else 3, np=3 if js else 4, fill=js % 2, nc=7 + js, file=(nfp + js) % 2, modes=[(0, 0), "?", (2, nfp)][: 3 - (js == 2)]))
    out += [dict(nfp=3, asym=1, ns=1, js=0, nt=2, np=2, fill=1, nc=25, modes=[(0, 0)]), dict(nfp=3, asym=0, ns=2, js=0, nt=4, np=6, fill=0, nc=12, kw={"alpha": 0.5}, modes=["?", (1, -3)]),
            dict(nfp=4, asym=1, ns=2, js=1, nt=4, np=6, fill=1, nc=9, kw={"alpha": 0.25, "cmap": "jet"}, modes=[(0, 0), (3, 8), "?"], file=1),
            dict(nfp=2, asym=1, ns=2, js=None, nt=4, np=6, fill=None, nc=None, modes=[(0, 0), (1, 2)])]
    # again, after the file was rewritten or the object changed
    for i in range(4): out.append(dict(nfp=1 + i, asym=i // 2, ns=2, js=i % 2, nt=3, np=4, fill=i % 2, nc=8, modes=[(0, 0), (1, 1 + i)], file=i % 2, again=1 + i // 2))
    # whole tables
    for i, (mm, nn, nfp) in enumerate(((6, 4, 1), (5, 3, 3), (9, 2, 2), (2, 8, 5)) if tier == "quick" else ((12, 8, 1), (6, 6, 4), (20, 3, 2), (3, 16, 5))):
        for asym in (0, 1): out.append(dict(nfp=nfp, asym=asym, ns=2, js=(i + asym) % 2, nt=4, np=6, fill=asym, nc=8, modes=[], table=[mm, nn], limit=200))
    if tier == "thorough":
        for nfp in (1, 2, 3, 4, 5, 7, 10):
            for asym in (0, 1):
                for ns in (1, 2, 4):
                    for js in range(ns): out.append(dict(nfp=nfp, asym=asym, ns=ns, js=js, nt=5 - js % 2, np=4 + js % 2, fill=(js + ns) % 2, nc=5 + js, file=(js + nfp) % 2, modes=["?", "?", (3, -2 * nfp)], limit=300))
    for c in out: c.setdefault("limit", 100)
    return out

def scenario(b, ob, case):
    nfp, asym = case["nfp"], case["asym"]
    modes = []
    for i, m in enumerate(case["modes"]):
        if m == "?": modes.append((b.integer("m%d" % i, -3, 3), b.choose("n%d" % i, [k * nfp for k in (-2, -1, 0, 1, 2)])))
        else: modes.append(tuple(m))
    if "table" in case: modes = table(*case["table"], nfp)
    d = results(b, case, modes)
    ext, arg, o = make(b, case, d)
    lo, log, mod, exc = load(b, ext, "plots")
    ob.true("the module loads", exc is None, exc)
    if exc: return
    kw = dict(case.get("kw", {}))
    opt = dict(kw)
    for k, v in (("js", case["js"]), ("ntheta", case["nt"]), ("nphi", case["np"]), ("ncontours", case["nc"]), ("fill", None if case["fill"] is None else bool(case["fill"]))):
        if v is not None: opt[k] = v
    exc = before(b, case, ext, arg, o, d, lo, log, mod.surfplot, opt)
    ob.true("surfplot returns with other contents", exc is None, exc)
    if exc: return
    r, exc = call(lo, mod.surfplot, arg, **opt)
    ob.true("surfplot returns", exc is None, exc)
    if exc: return
    js = case["js"] or 0
    nc = 25 if case["nc"] is None else case["nc"]
    fill = True if case["fill"] is None else bool(case["fill"])
    if case.get("file"):
        ob.eq("the named file is read, once", [x[:2] for x in ext.log], [("read_boozmn", "boozmn_check.nc")])
        if not ext.log: return
        o = ext.log[0][2]
    ds = [c for c in log if c.name in ("contour", "contourf", "pcolormesh", "imshow", "tricontourf", "tricontour")]
    ob.eq("what is drawn", [c.name for c in ds], ["contourf" if fill else "contour"])
    if len(ds) != 1: return
    c = ds[0]
    ob.true("coordinates and data are given", len(c.args) in (3, 4))
    if len(c.args) < 3: return
    X, Y, Z = [numpy.asarray(x) for x in c.args[:3]]
    k2 = dict(c.kw)
    lev = c.args[3] if len(c.args) > 3 else k2.pop("levels", None)
    ob.eq("number of contours", lev, nc)
    ob.eq("extra options", k2, kw)
    nt, np_ = case["nt"], case["np"]
    zshape = tuple(Z.shape)
    if X.ndim == 1 and Y.ndim == 1: X, Y = numpy.meshgrid(X, Y)
    if zshape == (np_, nt) and np_ != nt: X, Y, Z = X.T, Y.T, Z.T       # the transposed grid is the same plot
    elif np_ == nt and X.ndim == 2 and X.shape == (nt, np_) and nt > 1:
        u, v = X[0, 1], X[0, 0]
        if bool(u == v): X, Y, Z = X.T, Y.T, Z.T
    ob.eq("grid", (tuple(X.shape), tuple(Y.shape), tuple(Z.shape)), ((nt, np_),) * 3)
    if not (X.shape == Y.shape == Z.shape == (nt, np_)): return
    tp = pi(b) * 2
    ph, th = linspace(b, b.const(0), tp / nfp, np_), linspace(b, b.const(0), tp, nt)
    close(ob, b, "phi", X, [[ph[j] for j in range(np_)] for i in range(nt)])
    close(ob, b, "theta", Y, [[th[i] for j in range(np_)] for i in range(nt)])
    want = [[series(b, modes, th[i], ph[j], d["bmnc_b"][:, js], d["bmns_b"][:, js] if asym else None) for j in range(np_)] for i in range(nt)]
    close(ob, b, "|B|", Z, want)
    ts = [x for x in log if x.name == "set_title"]
    ob.eq("titles", len(ts), 1)
    if ts:
        s = d["s_b"][js]
        ps = [p for p in b.parts(ts[-1].args[0]) if not isinstance(p, str)]
        if b.symbolic:
            same = [p for p in ps if isinstance(p, V) and b.node(p) is b.node(s)]
            ob.real("flux label in the title", b.node((same or [p for p in ps if isinstance(p, V)] or [V(-7)])[0]), b.node(s))
        else: ob.true("flux label in the title", any(abs(float(p) - float(s)) <= 0.01 * abs(float(s)) + 1e-6 for p in ps), ts[-1].args[0])
    unchanged(ob, b, "results ", o, d)
