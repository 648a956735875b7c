from fractions import Fraction as F
from engine import rterm as R
from checks import scen, c11
from checks.scen import Eq, modes
from engine.backend import Arr, OUT_S, OUT_A

BOUNDS = c11.BOUNDS.replace("existing and new file", "fresh and used reading objects") + "; files of another program: arbitrary values, mode tables of up to 7 modes in any order, any nonzero symmetry flag, further variables and another order of the variables"
OUTSIDE = "larger sizes"
ASSUMPTIONS = ["the netCDF library stores and returns what it is given (modelled)", "flux labels are those of an imported equilibrium (half grid), as the file format has no flux labels"]
NVAL = 20

def cases(tier, seed):
    c = []
    for i, x in enumerate(c11.cases(tier, seed)):
        x = dict(x); x.pop("exists")
        x["into"] = ["fresh", "used", "usedasym", "read"][i % 4]
        x["nochi"] = int(i % 3 == 1)
        c.append(x)
    # files of another program: any values, any mode table, further variables
    tabs = [[[0, 0]], [[0, 0], [1, 0], [1, 1]], [[1, -1], [0, 0], [4, 2]], [[0, 0], [0, 1], [1, -1], [1, 0], [1, 1]], [[3, 1], [0, 0], [2, -2], [0, -1], [0, 5], [7, 0], [1, 1]]]
    for i, t in enumerate(tabs):
        for lasym in (0, 1, 2, -1)[: 4 if i < 2 else 2]:
            for nochi in (0, 1):
                nfp = 1 + (i + lasym) % 3
                c.append(dict(kind="foreign", table=[[m, n * nfp] for m, n in t], lasym=lasym, nfp=nfp, ns=[2, 3, 5][(i + nochi) % 3], surfs=[[0], [1, 0], [3, 1, 2]][(i + nochi) % 3], mboz=2, nboz=1, nochi=nochi, verbose=(i + lasym) % 3, v=0, into=["fresh", "used", "usedasym"][(i + lasym + nochi) % 3]))
    return c

def junk(b, ob, o, asym):
    """use the object for something else first"""
    eq = Eq(asym, 4, [(0, 0), (1, 4)], [(0, 0), (1, 4)], tag="old:", ns_in=3)
    ob.eq("earlier import", scen.vmec_import(b, o, eq, scen.vmec_data(b, eq, 4, True), 4, True, 0), 0)
    b.setd(o, "aspect", b.real("old:aspect"))
    scen.settings(b, o, [1, 2], 2, 0)
    ob.eq("earlier run", b.run(o), 0)

def foreign(b, ob, case):
    asym, ns, surfs, tab = case["lasym"] != 0, case["ns"], case["surfs"], [tuple(x) for x in case["table"]]
    dims, V = scen.boozmn_vars(b, asym, case["nfp"], ns, surfs, case["mboz"], case["nboz"], tab=tab, zero=("chi_b",) if case["nochi"] else ())
    val = {n: x for n, t, d, x in V}
    V = [(n, t, d, [case["lasym"]] if n == "lasym__logical__" else x) for n, t, d, x in V if not (case["nochi"] and n == "chi_b")]
    V = V[::-1] + [("further", "d", ["radius"], [b.const(3)] * ns)]
    fname = scen.FNAMES[(case["ns"] + len(tab) + case["nochi"]) % len(scen.FNAMES)]
    b.setfile(fname, dims, V)
    o = b.new()
    if case["into"] != "fresh": junk(b, ob, o, case["into"] == "usedasym")
    b.seti(o, "verbose", case["verbose"])
    ob.eq("reading succeeds", b.code("h_read_boozmn", o, b.cstring(fname)), 0)
    for f, w in (("asym", int(asym)), ("nfp", case["nfp"]), ("mboz", case["mboz"]), ("nboz", case["nboz"]), ("mnboz", len(tab)), ("ns_in", ns - 1), ("ns_b", len(surfs))): ob.eq("read " + f, b.geti(o, f), w)
    ob.iarr("read xm_b", b.get(o, "xm_b"), [m for m, n in tab]); ob.iarr("read xn_b", b.get(o, "xn_b"), [n for m, n in tab])
    ob.iarr("read compute_surfs", b.get(o, "compute_surfs"), surfs)
    ob.arr("read s_b", b.get(o, "s_b"), [(b.const(2 * s + 1)) / (2 * (ns - 1)) if not b.symbolic else R.lift(F(2 * s + 1, 2 * (ns - 1))) for s in surfs])
    for f, n in (("iota", "iota_b"), ("Boozer_G_all", "bvco_b"), ("Boozer_I_all", "buco_b")): ob.arr("read " + f, b.get(o, f), val[n][1:])
    for f, n in (("Boozer_G", "bvco_b"), ("Boozer_I", "buco_b")): ob.arr("read " + f, b.get(o, f), [val[n][s + 1] for s in surfs])
    for f in ("phi", "phip", "chi", "pres"): ob.arr("read " + f, b.get(o, f), val[f + "_b"])
    ob.real("read toroidal_flux", b.getd(o, "toroidal_flux"), val["phi_b"][-1])
    for f in OUT_S + OUT_A:
        n = {"numns_b": "pmns_b", "numnc_b": "pmnc_b", "gmnc_b": "gmn_b"}.get(f, f)
        if f in OUT_A and not asym: ob.eq("%s is empty" % f, b.shape(o, f), (0, 0)); continue
        ob.eq("shape of " + f, b.shape(o, f), (len(tab), len(surfs)))
        ob.arr("read " + f, b.get(o, f), Arr(len(tab), len(surfs), [c11.neg(b, x) for x in val[n]] if f[:2] == "nu" else list(val[n])))

def scenario(b, ob, case):
    if case.get("kind") == "foreign": return foreign(b, ob, case)
    o = b.new()
    fname = scen.FNAMES[(case["ns"] + case["mboz"] + case["flux"]) % len(scen.FNAMES)]
    eq = c11.finished(b, ob, o, case)
    r = scen.results(b, o); i = scen.inputs(b, o)
    ob.eq("writing succeeds", b.code("h_write_boozmn", o, b.cstring(fname)), 0)
    o2 = b.new(); b.seti(o2, "verbose", case["v"])
    if case["into"] in ("used", "usedasym"): junk(b, ob, o2, case["into"] == "usedasym")
    if case["into"] == "read":
        o3 = b.new(); junk(b, ob, o3, True)
        ob.eq("earlier file", b.code("h_write_boozmn", o3, b.cstring("boozmn_y.nc")), 0)
        ob.eq("earlier reading", b.code("h_read_boozmn", o2, b.cstring("boozmn_y.nc")), 0)
    name = fname
    if case["nochi"]:
        f = b.getfile(name)
        V = [(n, v["type"], [d[0] for d in v["dims"]], v["data"]) for n, v in f["vars"].items() if v["type"] != "c" and n != "chi_b"]
        name = "boozmn_z.nc"; b.setfile(name, [(n, l) for n, l in f["dims"] if n[:4] != "dim_"], V)
    b.seti(o2, "verbose", case["verbose"])
    ob.eq("reading succeeds", b.code("h_read_boozmn", o2, b.cstring(name)), 0)
    r2 = scen.results(b, o2)
    ob.same("read: ", r2, r)
    for f in ("asym", "nfp", "mboz", "nboz", "ns_in"): ob.eq("read " + f, b.geti(o2, f), i[f])
    ob.iarr("read compute_surfs", b.get(o2, "compute_surfs"), i["compute_surfs"])
    ob.arr("read iota", b.get(o2, "iota"), i["iota"])
    z = b.const(0)
    for f in ("phi", "phip", "chi", "pres"):
        w = list(i[f].a) if case["flux"] else [z] * case["ns"]
        if f == "phip": w[0] = z
        if f == "chi" and case["nochi"]: w = [z] * case["ns"]
        ob.arr("read " + f, b.get(o2, f), w)
    ob.real("read toroidal_flux", b.getd(o2, "toroidal_flux"), i["phi"].a[-1] if case["flux"] else z)
