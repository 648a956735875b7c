from checks import scen
from checks.scen import Eq, modes, NAMES, perm
from engine.backend import Arr, OUT_S, OUT_A, DBLS
import os

BUILDS = ["asserts"]
NATIVES = ["plain", "asan"]
VARIANT = "asan"
BOUNDS = ("pipelines import - run - write - read and file reading with every amplitude symbolic; radial points 2..5, mode tables from a single mode up (mode numbers of one table symbolic), "
          "tables in any order, mpol from 1 or equal to the largest mode number, resolution mboz 1..3, nboz 0..2, verbosity 0..3, with and without flux profiles, symmetric and asymmetric; "
          "file headers whose sizes disagree with the data, result files without any one of their variables")
OUTSIDE = "larger sizes; undocumented calls; memory use inside netCDF and the C++ library"
ASSUMPTIONS = ["header fields and mode tables are set before importing, as the documentation asks"]
NVAL = 10

SHAPES = [dict(modes=[[0, 0]], nyq=[[0, 0]], nfp=1),
          dict(modes=[[0, 0], [1, 0]], nyq=[[0, 0]], nfp=3),
          dict(modes=[[0, 0]], nyq=[[0, 0], [1, 0]], nfp=2),
          dict(modes=[[0, 0], [0, 2]], nyq=[[0, 0], [0, 2]], nfp=2),
          dict(modes=[[0, 0], [1, 0]], nyq=[[0, 0], [2, 0]], nfp=1, mpol=1),
          dict(modes=[[0, 0], [1, -3], [2, 3]], nyq=[[0, 0], [1, 3]], nfp=3, mpol=2),
          dict(modes=modes(2, 1, 1), nyq=modes(3, 1, 1), nfp=1),
          # the largest mode numbers are not last
          dict(modes=[[0, 0], [2, 0], [1, 2]], nyq=[[0, 0], [3, -2], [1, 2]], nfp=2),
          dict(modes=[[0, 0], [2, -2], [0, 6]], nyq=[[0, 0], [3, 2], [0, 4]], nfp=2, mpol_nyq=4),
          # axisymmetric, or only one of the tables
          dict(modes=[[0, 0], [1, 3]], nyq=[[0, 0], [1, 0]], nfp=3),
          dict(modes=[[0, 0], [2, 0]], nyq=[[0, 0], [1, 3]], nfp=3)]

def cases(tier, seed):
    c = []
    B = dict(build="asserts", limit=200, kind="pipe")
    for i, s in enumerate(SHAPES):
        for asym in (0, 1):
            k = 2 * i + asym
            c.append(dict(B, **s, asym=asym, flux=(i + asym) % 2, ns=2, mboz=1, nboz=(i % 2)))
            c.append(dict(B, **s, asym=asym, flux=(i + asym + 1) % 2, ns=3 + k % 2, mboz=1 + (k % 3 == 0), nboz=(k + 1) % 2))
    c.append(dict(B, **SHAPES[1], asym=1, flux=1, ns=5, mboz=3, nboz=0))
    c.append(dict(B, **SHAPES[3], asym=0, flux=1, ns=3, mboz=1, nboz=2))
    if tier == "thorough":
        for s in SHAPES:
            for asym in (0, 1):
                for flux in (0, 1):
                    for ns in (2, 3, 4, 6):
                        for mb, nb in ((1, 0), (1, 1), (2, 1), (3, 0), (2, 2)): c.append(dict(B, **s, asym=asym, flux=flux, ns=ns, mboz=mb, nboz=nb))
    # mode numbers as symbols
    for asym in (0, 1):
        c.append(dict(B, kind="table", asym=asym, which="xm")); c.append(dict(B, kind="table", asym=asym, which="xn"))
        c.append(dict(B, kind="table", asym=asym, which="xm_nyq")); c.append(dict(B, kind="table", asym=asym, which="xn_nyq"))
    # files
    for asym in (0, 1):
        for flux in (0, 1): c.append(dict(B, kind="wout", asym=asym, flux=flux, noval=True))
        c.append(dict(B, kind="boozmn", asym=asym, noval=True))
        c.append(dict(B, kind="boozmn", asym=asym, noval=True, drop=1))
        # the surfaces and resolution that the import selects
        for ns in (2, 3, 4): c.append(dict(B, **SHAPES[0], asym=asym, flux=ns % 2, ns=ns, mboz=None, nboz=None, deflt=1))
        c.append(dict(B, **SHAPES[1], asym=asym, flux=asym, ns=3, mboz=1, nboz=0, deflt=1))
    # operations in any order
    for first in ("new", "import", "read", "run"):
        for asym in (0, 1): c.append(dict(B, kind="order", first=first, asym=asym))
    return c

def on_end(S, ob, case, end):
    return end.kind == "limit"

def shape(case):
    ml = [tuple(x) for x in case["modes"]]; ny = [tuple(x) for x in case["nyq"]]
    return Eq(bool(case["asym"]), case["nfp"], ml, ny, **{k: case[k] for k in ("mpol", "ntor", "mpol_nyq", "ntor_nyq") if k in case})

def everything(b, ob, o, tag):
    for f, x in list(scen.results(b, o).items()) + list(scen.inputs(b, o).items()): ob.defined(tag + f, x)

def scenario(b, ob, case):
    k = case["kind"]
    o = b.new()
    if k == "pipe":
        v = b.choose("verbose", [0, 1, 2, 3])
        eq = shape(case); ns = case["ns"]
        D = scen.vmec_data(b, eq, ns, case["flux"])
        ob.eq("import", scen.vmec_import(b, o, eq, D, ns, case["flux"], v), 0)
        everything(b, ob, o, "after the import: ")
        s = None if case.get("deflt") else b.choose("surf", list(range(ns - 1)))
        scen.settings(b, o, None if s is None else [s] if ns < 4 else [s, 0], case["mboz"], case["nboz"], v)
        ob.eq("run", b.run(o), 0)
        everything(b, ob, o, "after the run: ")
        ob.eq("write", b.code("h_write_boozmn", o, b.cstring("o.nc")), 0)
        f = b.getfile("o.nc")
        for n, x in f["vars"].items():
            if x["type"] != "c": ob.defined("file " + n, x["data"])
        o2 = b.new(); b.seti(o2, "verbose", v)
        ob.eq("read", b.code("h_read_boozmn", o2, b.cstring("o.nc")), 0)
        everything(b, ob, o2, "after reading: ")
        b.fn("h_delete", o2); b.fn("h_delete", o)
        return
    if k == "table":
        # one mode number of one table is arbitrary; a run with it either works or is refused
        eq = Eq(bool(case["asym"]), 2, [(0, 0), (1, 0), (1, 2)], [(0, 0), (1, 0), (1, 2)])
        x = b.choose("value", list(range(-4, 7)))
        D = scen.vmec_data(b, eq, 3)
        b.seti(o, "verbose", 0)
        scen.vmec_header(b, o, eq)
        t = {"xm": [m for m, _ in eq.modes], "xn": [n for _, n in eq.modes]}[case["which"][:2]]
        t[1] = x
        b.put(o, case["which"], t)
        if scen.vmec_call(b, o, D, 3) == 0:
            scen.settings(b, o, [1], 1, 1, 0)
            if b.run(o) == 0: everything(b, ob, o, "")
        ob.true("done", True)
        return
    if k == "wout":
        eq = Eq(bool(case["asym"]), 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)])
        D = scen.vmec_data(b, eq, 3, True)
        dims, V = scen.wout_vars(b, eq, 3, D, b.real("aspect"))
        h = b.choose("header", ["none", "ns", "nfp", "mnmax", "mnmax_nyq", "mpol", "ntor"])
        x = b.choose("headervalue", [-1, 0, 1, 2, 4])
        V = [(n, t, d, [x]) if n == h else (n, t, d, l) for n, t, d, l in V]
        b.setfile("w.nc", dims, V)
        b.seti(o, "verbose", 0)
        r = b.code("h_read_wout", o, b.cstring("w.nc"), case["flux"])
        if r == 0:
            scen.settings(b, o, [0], 1, 0, 0)
            if b.run(o) == 0: everything(b, ob, o, "")
        ob.true("done", True)
        return
    if k == "boozmn":
        eq = Eq(bool(case["asym"]), 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)])
        D = scen.vmec_data(b, eq, 3, True)
        ob.eq("import", scen.vmec_import(b, o, eq, D, 3, True, 0), 0)
        scen.settings(b, o, [1], 1, 0, 0)
        ob.eq("run", b.run(o), 0)
        ob.eq("write", b.code("h_write_boozmn", o, b.cstring("o.nc")), 0)
        f = b.getfile("o.nc")
        h = "none" if case.get("drop") else b.choose("header", ["none", "mnboz_b", "lasym__logical__", "ns_b", "radius", "comput_surfs"])
        x = 0 if case.get("drop") else b.choose("headervalue", [-1, 0, 1, 2, 3])
        V = [(n, v["type"], v["dims"], [x] if n == h else v["data"]) for n, v in f["vars"].items() if v["type"] != "c"]
        V = [(n, t, [d[0] if type(d) is tuple else d for d in ds], l) for n, t, ds, l in V]
        dims = list(f["dims"])
        if case.get("drop"):
            d = b.choose("missing", [n for n, *_ in V]); h = "none"
            V = [v for v in V if v[0] != d]
        if h in ("radius", "comput_surfs"):
            # the dimension that is asked for is not the one of the variables
            dims = [(n + "_x" if n == h else n, l) for n, l in dims] + [(h, max(x, 1))]
            V = [(n, t, [d + "_x" if d == h else d for d in ds], l) for n, t, ds, l in V]
        b.setfile("p.nc", dims, V)
        o2 = b.new(); b.seti(o2, "verbose", 0)
        if b.code("h_read_boozmn", o2, b.cstring("p.nc")) == 0:
            everything(b, ob, o2, "after reading: ")
        ob.true("done", True)
        return
    # order of operations: each either works on defined data or is refused
    eq = Eq(bool(case["asym"]), 2, [(0, 0), (1, 0)], [(0, 0), (1, 0)])
    b.seti(o, "verbose", 0)
    def load(ns, tag=""):
        eq.tag = tag
        return scen.vmec_import(b, o, eq, scen.vmec_data(b, eq, ns), ns)
    if case["first"] in ("import", "run"): ob.eq("import", load(4), 0)
    if case["first"] == "run":
        scen.settings(b, o, [0, 2], 1, 0, 0); ob.eq("run", b.run(o), 0)
    if case["first"] == "read":
        o1 = o; o = b.new(); b.seti(o, "verbose", 0)
        load(4); scen.settings(b, o, [0, 2], 1, 0, 0); b.run(o)
        ob.eq("write", b.code("h_write_boozmn", o, b.cstring("o.nc")), 0)
        o = o1
        ob.eq("read", b.code("h_read_boozmn", o, b.cstring("o.nc")), 0)
    for i in range(2):
        op = b.choose("op%d" % i, ["run", "write", "bad", "smaller", "surfs", "res"])
        if op == "run":
            if b.run(o) == 0: everything(b, ob, o, "op%d " % i)
        elif op == "write":
            if b.code("h_write_boozmn", o, b.cstring("w%d.nc" % i)) == 0:
                for n, x in b.getfile("w%d.nc" % i)["vars"].items():
                    if x["type"] != "c": ob.defined("file%d %s" % (i, n), x["data"])
        elif op == "bad":
            # a refused import
            eq.tag = "q:"; D = scen.vmec_data(b, eq, 3); D["iotas"] = Arr(2, 1, D["iotas"].a[:2])
            ob.eq("refused", scen.vmec_import(b, o, eq, D, 3) != 0, True)
        elif op == "smaller": load(3, "p:")
        elif op == "surfs": scen.settings(b, o, [1] if i else [0, 1, 1])
        else: scen.settings(b, o, None, 2, 0)
    # the default resolution of an import is large; keep runs small
    if b.geti(o, "mboz") <= 2 and b.geti(o, "nboz") <= 1: b.run(o)
    ob.true("done", True)
