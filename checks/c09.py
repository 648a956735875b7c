from checks import scen
from checks.scen import Eq, modes, NAMES
from engine.backend import Arr
import z3

BUILDS = ["asserts"]
NATIVES = ["plain", "asan"]
BOUNDS = ("import: every mode number of one table at a time, number of field periods and declared toroidal maximum as symbolic integers (|x| <= 40), radial points -2..3, each array one row or "
          "column too large, too small or empty; run: surface indices any 32-bit integer, resolution -5..2 x -5..1, every input array missing or of wrong size, mode numbers -4..6")
OUTSIDE = "combinations of several inconsistencies at a time (other than among the mode tables), larger arrays"
ASSUMPTIONS = []
NVAL = 16

def cases(tier, seed):
    c = []
    B = dict(build="asserts", limit=200)
    for asym in (0, 1):
        for flux in (0, 1):
            c.append(dict(B, kind="table", asym=asym, flux=flux, which=0)); c.append(dict(B, kind="table", asym=asym, flux=flux, which=1))
            c.append(dict(B, kind="ns", asym=asym, flux=flux))
            c.append(dict(B, kind="size", asym=asym, flux=flux, ns=2)); c.append(dict(B, kind="size", asym=asym, flux=flux, ns=4))
            c.append(dict(B, kind="counts", asym=asym, flux=flux))
        c.append(dict(B, kind="surfs", asym=asym, n=1)); c.append(dict(B, kind="surfs", asym=asym, n=2)); c.append(dict(B, kind="res", asym=asym))
        c.append(dict(B, kind="many", asym=asym))
        c.append(dict(B, kind="runsize", asym=asym)); c.append(dict(B, kind="runmodes", asym=asym))
    c.append(dict(B, kind="nothing"))
    if tier == "thorough":
        for asym in (0, 1):
            c.append(dict(B, kind="surfs", asym=asym, n=3, limit=900)); c.append(dict(B, kind="table", asym=asym, flux=1, which=2, limit=900))
            c.append(dict(B, kind="size", asym=asym, flux=1, ns=7))
    return c

def eq0(case): return Eq(bool(case.get("asym")), 2, [(0, 0), (1, -2), (1, 2)], [(0, 0), (1, 0), (1, 4)], ntor=1, ntor_nyq=2)

def scenario(b, ob, case):
    k = case["kind"]
    eq = eq0(case) if k != "nothing" else None
    o = b.new()
    vb = case["v"]
    b.seti(o, "verbose", vb)
    def accepted(cond, r, what):
        if not isinstance(cond, z3.ExprRef): cond = bool(cond)
        if isinstance(cond, bool): ob.eq("%s is %s" % (what, "accepted" if cond else "rejected"), r == 0, cond)
        else: ob.true("%s is %s exactly if consistent" % (what, "accepted" if r == 0 else "rejected"), cond if r == 0 else z3.Not(cond))
    AND = (lambda *l: z3.And([x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x)) for x in l])) if b.symbolic else (lambda *l: all(l))
    if k == "table":
        ns, flux = 3, case["flux"]
        D = scen.vmec_data(b, eq, ns, flux)
        scen.vmec_header(b, o, eq)
        nfp = b.integer("nfp", -3, 5); b.seti(o, "nfp", nfp)
        x0, x1, x2 = (b.integer("m%d" % i, -40, 40) for i in range(3))
        y0, y1, y2 = (b.integer("n%d" % i, -40, 40) for i in range(3))
        nt = b.integer("nt", -3, 20)
        s = "_nyq" if case["which"] == 1 else ""
        b.put(o, "xm" + s, [x0, x1, x2]); b.put(o, "xn" + s, [y0, y1, y2]); b.seti(o, "ntor" + s, nt)
        if s: b.put(o, "xn", [0, 1, 0]); b.seti(o, "ntor", 0); 
        else: b.put(o, "xn_nyq", [0, 4, 0]); b.seti(o, "ntor_nyq", 0)
        r = scen.vmec_call(b, o, D, ns, flux)
        accepted(AND(nfp >= 1, x0 == 0, y0 == 0, y2 == nfp * nt), r, "the import")
        return
    if k == "ns":
        n = b.choose("ns", [-2, -1, 0, 1, 2, 3]); flux = case["flux"]
        D = scen.vmec_data(b, eq, max(n, 0), flux)
        scen.vmec_header(b, o, eq)
        accepted(n >= 2, scen.vmec_call(b, o, D, n, flux), "the import")
        return
    if k == "size":
        ns, flux = case["ns"], case["flux"]
        D = scen.vmec_data(b, eq, ns, flux, asym=True)     # the asymmetric arrays are given in any case
        names = scen.VM + scen.VM_A + ["iotas"] + (scen.FLUX if flux else [])
        if b.integer("none", 0, 1) if not b.symbolic else b.choose("none", [0, 1]): f = None
        else: f = b.choose("array", names)
        if f:
            a = D[f]
            opts = [(-1, 0), (1, 0)] + ([(0, -1), (0, 1)] if f not in ["iotas"] + scen.FLUX else []) + ([] if f == "phip0" else [(-a.rows, -a.cols if a.cols > 1 else 0)])
            dr, dc = b.choose("change", opts)
            r_, c_ = a.rows + dr, a.cols + dc
            D[f] = Arr(r_, c_, [b.const(0.25)] * (r_ * c_))
        scen.vmec_header(b, o, eq)
        accepted(f is None or (f in scen.VM_A and not eq.asym), scen.vmec_call(b, o, D, ns, flux), "the import with a changed size of %s" % f)
        return
    if k == "counts":
        ns, flux = 3, case["flux"]
        D = scen.vmec_data(b, eq, ns, flux)
        scen.vmec_header(b, o, eq)
        f = b.choose("count", ["none", "mnmax", "mnmax_nyq", "xm", "xn", "xm_nyq", "xn_nyq", "zero", "zero_nyq"])
        d = b.choose("change", [-1, 1])
        if f.startswith("mnmax"): b.seti(o, f, 3 + d)
        elif f.startswith("x"): b.put(o, f, ([0, 1, 1, 1] if f[1] == "m" else [0, 2, 2 if "nyq" not in f else 4, 2 if "nyq" not in f else 4])[:3 + d])
        elif f.startswith("zero"):
            s = f[4:]
            b.seti(o, "mnmax" + s, 0); b.put(o, "xm" + s, []); b.put(o, "xn" + s, [])
            for x in list(D):
                if D[x].cols > 1 and scen.is_nyq(x) == bool(s): D[x] = Arr(0, ns, [])
        accepted(f == "none", scen.vmec_call(b, o, D, ns, flux), "the import with a changed %s" % f)
        return
    # runs
    if k == "nothing":
        h = b.choose("history", ["new", "read"])
        if h == "read":
            e2 = Eq(False, 1, [(0, 0)], [(0, 0)], ns_in=2)
            o2 = b.new(); b.seti(o2, "verbose", 0)
            scen.vmec_import(b, o2, e2, scen.vmec_data(b, e2, 3, True), 3, True)
            scen.settings(b, o2, [0, 1], 1, 0, 0)
            ob.eq("run", b.run(o2), 0); ob.eq("write", b.code("h_write_boozmn", o2, b.cstring("o.nc")), 0)
            ob.eq("read", b.code("h_read_boozmn", o, b.cstring("o.nc")), 0)
        if b.choose("some", [0, 1]): scen.settings(b, o, [0], 1, 0, 0)
        else: scen.settings(b, o, None, 1, 0, 0)
        ob.eq("a run without input data is rejected (%s)" % h, b.run(o) != 0, True)
        return
    eq.ns_in = 2
    D = scen.make_data(b, eq)
    mboz, nboz, surfs = 1, 0, [1]
    ok = True
    if k == "surfs":
        s = [b.integer("surf%d" % i) for i in range(case["n"])]
        if b.symbolic: ok = z3.And([z3.And(x >= 0, x < 2) for x in s])
        else: ok = all(0 <= x < 2 for x in s)
        surfs = s
    elif k == "many": surfs = b.choose("list", [[], [0, 0], [1, 0, 1], [0, 0, 0], [1, 1, 0, 0, 1], [1] * 7])     # more surfaces than the input has
    elif k == "res":
        mboz, nboz = b.choose("mboz", list(range(-5, 3))), b.choose("nboz", list(range(-5, 2)))
        ok = mboz >= 1 and nboz >= 0
    scen.setup(b, o, eq, D, surfs, mboz, nboz, vb)
    if k == "runsize":
        names = scen.NONNYQ_S + scen.NYQ_S + (scen.NONNYQ_A + scen.NYQ_A if eq.asym else []) + ["iota", "s_in", "xm", "xn", "xm_nyq", "xn_nyq"]
        if not b.choose("none", [0, 1]):
            f = b.choose("array", names)
            r, c = b.shape(o, f)
            dr, dc = b.choose("change", [(-r, -c if c > 1 else 0), (-1, 0), (1, 0)] + ([(0, -1), (0, 1)] if f in scen.NONNYQ_S + scen.NYQ_S + scen.NONNYQ_A + scen.NYQ_A else []))
            b.put(o, f, Arr(r + dr, c + dc, [0 if f[0] == "x" else b.const(0.25)] * ((r + dr) * (c + dc))))
            ok = False
            k += " " + f
    if k == "runmodes":
        f = b.choose("table", ["xm", "xn", "xm_nyq", "xn_nyq"])
        x = b.choose("value", list(range(-4, 7)))
        t = [m for m, _ in (eq.nyq if "nyq" in f else eq.modes)] if f[1] == "m" else [n for _, n in (eq.nyq if "nyq" in f else eq.modes)]
        t[1] = x
        b.put(o, f, t)
        hi = {"xm": eq.mpol, "xm_nyq": eq.mpol_nyq}.get(f)
        if hi is not None: ok = 0 <= x <= hi
        else:
            hi = eq.nfp * (eq.ntor_nyq if "nyq" in f else eq.ntor)
            if abs(x) < hi + eq.nfp and x % eq.nfp: return ob.true("not specified", True)   # not a multiple of nfp
            ok = abs(x) <= hi
    accepted(ok, b.run(o), "the run request (%s)" % k)
