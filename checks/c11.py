from checks import scen
from checks.scen import Eq, modes
from engine.backend import Arr, OUT_S, OUT_A
from engine import rterm as R

BOUNDS = ("radial points 2..6, surface lists in any order with repetition, up to 5 x 7 output modes (mboz<=3, nboz<=2), symmetric and asymmetric, with and without flux profiles, verbosity 0..2, "
          "existing and new file; the results are those of a symbolic run, or arbitrary (every result value a free variable)")
OUTSIDE = "larger sizes; descriptive attributes"
ASSUMPTIONS = ["the netCDF library stores what it is given (modelled)"]
NVAL = 20
SH = [dict(nfp=2, modes=[[0, 0], [1, 0], [1, 2]], nyq=[[0, 0], [1, 0], [1, 2]]),
      dict(nfp=1, modes=[[0, 0]], nyq=[[0, 0], [2, 0]]),
      dict(nfp=3, modes=[[0, 0], [1, 3]], nyq=[[0, 0], [1, 3]])]

def cases(tier, seed):
    c = []
    for i, (ns, surfs) in enumerate([(2, [0]), (4, [2, 0]), (4, [1, 1, 2, 0]), (3, [1]), (6, [4, 0, 2])]):
        for asym in (0, 1):
            for flux in (0, 1):
                for free in (0, 1):
                    mb, nb = [(1, 0), (2, 1), (1, 1), (3, 0), (2, 0), (1, 2), (3, 2)][(3 * i + asym + 2 * flux) % 7]
                    if not free: mb, nb = min(mb, 2), min(nb, 1)
                    c.append(dict(SH[(i + asym) % 3], asym=asym, flux=flux, ns=ns, surfs=surfs, free=free, mboz=mb, nboz=nb, verbose=(i + flux) % 3, exists=(i + free) % 2))
    for asym in (0, 1):
        # a square spectrum would hide a transposition: as many surfaces as modes
        c.append(dict(SH[0], asym=asym, flux=1, ns=6, surfs=[3, 0, 4, 1, 2], free=1, mboz=2, nboz=1, verbose=0, exists=0))
    if tier == "thorough":
        for i, (ns, surfs) in enumerate([(2, [0]), (5, [3, 2, 1, 0]), (7, [5, 5, 0]), (9, [0, 1, 2, 3, 4, 5, 6, 7]), (3, [0, 1])]):
            for asym in (0, 1):
                for flux in (0, 1):
                    for mb, nb in ((1, 0), (1, 1), (4, 3), (7, 0), (2, 5)):
                        for v in (0, 1): c.append(dict(SH[i % 3], asym=asym, flux=flux, ns=ns, surfs=surfs, free=1, mboz=mb, nboz=nb, verbose=v, exists=v))
    return c

def finished(b, ob, o, case):
    """an object with results; -> results by name"""
    ml = [tuple(x) for x in case["modes"]]; ny = [tuple(x) for x in case["nyq"]]
    eq = Eq(bool(case["asym"]), case["nfp"], ml, ny, ntor=ml[-1][1] // case["nfp"], ntor_nyq=ny[-1][1] // case["nfp"], ns_in=case["ns"] - 1)
    ns = case["ns"]
    ob.eq("import", scen.vmec_import(b, o, eq, scen.vmec_data(b, eq, ns, case["flux"]), ns, case["flux"], case["verbose"]), 0)
    b.setd(o, "aspect", b.real("aspect"))
    scen.settings(b, o, case["surfs"], case["mboz"], case["nboz"])
    if case["free"]: b.seti(o, "verbose", 0)
    ob.eq("run", b.run(o), 0)
    b.seti(o, "verbose", case["verbose"])
    if case["free"]:
        # results with arbitrary values
        fs = OUT_S + (OUT_A if eq.asym else []) + ["Boozer_G_all", "Boozer_I_all", "iota"] + (["phi", "phip", "chi", "pres"] if case["flux"] else [])
        for f in fs:
            r, c = b.shape(o, f)
            b.put(o, f, Arr(r, c, [b.real("any:%s[%d,%d]" % (f, i, j)) for j in range(c) for i in range(r)]))
        for f in ("Boozer_G", "Boozer_I"):
            a = b.get(o, f + "_all").a
            b.put(o, f, [a[s] for s in case["surfs"]])
    return eq

def neg(b, x): return R.sub(R.lift(0), R.lift(x)) if b.symbolic else -x
DIMS = {"radius": "radius", "mode": "mn_modes", "surf": "comput_surfs", "pack": "pack_rad"}

def scenario(b, ob, case):
    o = b.new()
    fname = scen.FNAMES[(case["ns"] + case["mboz"] + case["flux"] + case["exists"]) % len(scen.FNAMES)]
    eq = finished(b, ob, o, case)
    r = scen.results(b, o); i = scen.inputs(b, o)
    if case["exists"]: b.setfile(fname, [("radius", 9), ("z", 2)], [("iota_b", "d", ["radius"], [b.const(1)] * 9), ("junk", "i", ["z"], [1, 2])])
    ob.eq("writing succeeds", b.code("h_write_boozmn", o, b.cstring(fname)), 0)
    f = b.getfile(fname)
    ob.eq("the file exists", f is not None, True)
    if f is None: return
    ob.eq("the file is closed", bool(f["closed"]), True)
    ob.eq("the file is in a classic format", f["mode"] & 0x1000, 0)
    ns, nm, nb = case["ns"], r["mnboz"], len(case["surfs"])
    dims = dict(f["dims"])
    for n, l in (("radius", ns), ("mn_mode", nm), ("mn_modes", nm), ("comput_surfs", nb), ("pack_rad", nb)): ob.eq("dimension " + n, dims.get(n), l)
    V = f["vars"]
    def ints(n, ds, vals):
        v = V.get(n)
        ob.eq("%s is present" % n, v is not None, True)
        if v is None: return
        head(n, v, "i", ds)
        ob.iarr(n, list(v["data"] or []), vals)
    def head(n, v, t, ds):
        ob.eq(n + " type", v["type"], t)
        ob.eq(n + " dimensions", [l for _, l in v["dims"]], [ns if d == "radius" else nm if d == "mode" else nb for d in ds])
        ob.eq(n + " dimension names", [x for x, _ in v["dims"]], [DIMS[d] for d in ds])
    def dbl(n, ds, vals):
        v = V.get(n)
        ob.eq("%s is present" % n, v is not None, True)
        if v is None: return
        head(n, v, "d", ds)
        d = v["data"]
        ob.eq(n + " is written", d is not None, True)
        if d is not None: ob.arr(n, Arr(len(d), 1, list(d)), list(vals))
    z = b.const(0)
    ints("lasym__logical__", [], [int(eq.asym)]); ints("ns_b", [], [ns]); ints("nfp_b", [], [eq.nfp]); ints("mboz_b", [], [case["mboz"]]); ints("nboz_b", [], [case["nboz"]])
    ints("mnboz_b", [], [nm])
    dbl("aspect_b", [], [b.real("aspect")])
    for n in ("rmax_b", "rmin_b", "betaxis_b"): dbl(n, [], [z])
    ints("jlist", ["surf"], [s + 2 for s in case["surfs"]])
    ints("ixm_b", ["mode"], list(r["xm_b"].a)); ints("ixn_b", ["mode"], list(r["xn_b"].a))
    dbl("iota_b", ["radius"], [z] + list(i["iota"].a)); dbl("buco_b", ["radius"], [z] + list(r["Boozer_I_all"].a)); dbl("bvco_b", ["radius"], [z] + list(r["Boozer_G_all"].a))
    dbl("beta_b", ["radius"], [z] * ns)
    for n in ("phip", "chi", "pres", "phi"):
        w = list(i[n].a) if case["flux"] else [z] * ns
        if n == "phip": w[0] = z
        dbl(n + "_b", ["radius"], w)
    S2 = [("bmnc_b", "bmnc_b", 1), ("rmnc_b", "rmnc_b", 1), ("zmns_b", "zmns_b", 1), ("pmns_b", "numns_b", -1), ("gmn_b", "gmnc_b", 1)]
    A2 = [("bmns_b", "bmns_b", 1), ("rmns_b", "rmns_b", 1), ("zmnc_b", "zmnc_b", 1), ("pmnc_b", "numnc_b", -1), ("gmns_b", "gmns_b", 1)]
    for n, x, s in S2 + (A2 if eq.asym else []):
        a = r[x].a
        dbl(n, ["pack", "mode"], [neg(b, y) for y in a] if s < 0 else a)
    if not eq.asym:
        for n, _, _ in A2: ob.eq("%s is absent" % n, n in V, False)
    ob.eq("version is text", V.get("version", {}).get("type"), "c")
    # the results themselves stay as they are
    ob.same("after writing: ", scen.results(b, o), r)
