from checks import scen
from checks.scen import Eq, modes, NAMES
from engine.backend import Arr, OUT_S, OUT_A

BOUNDS = ("every pair of a first and a second use (set fields and run, import and run, read an equilibrium file and run, read a result file, change of resolution, surfaces, symmetry) and imports in a row, verbosity 0..2, of uses that agree in the number of grid points, of modes, or in all but one setting, out of "
          "equilibria of different sizes, symmetry and field periods; every amplitude symbolic; resolution mboz<=2, nboz<=1, where sizes agree up to 8 and 4")
OUTSIDE = "more than three uses of one object, larger sizes"
ASSUMPTIONS = []
NVAL = 24

EQ = {
 "a": dict(asym=0, nfp=2, modes=[[0, 0], [1, 0], [1, 2]], nyq=[[0, 0], [1, 0], [2, -2], [2, 2]], ns=4, flux=1),
 "b": dict(asym=1, nfp=2, modes=[[0, 0], [1, 0], [1, 2]], nyq=[[0, 0], [1, 0], [2, -2], [2, 2]], ns=4, flux=1),
 "c": dict(asym=1, nfp=3, modes=[[0, 0], [1, 0]], nyq=[[0, 0], [1, 0]], ns=3, flux=0),
 "d": dict(asym=0, nfp=3, modes=[[0, 0], [1, 0]], nyq=[[0, 0], [1, 3]], ns=2, flux=0),
 "e": dict(asym=0, nfp=1, modes=[[0, 0]], nyq=[[0, 0], [3, 0]], ns=5, flux=1)}
SET = {"a": ([0, 2], 1, 1), "b": ([2, 1], 2, 0), "c": ([1], 1, 0), "d": ([0], 2, 1), "e": ([3, 0, 3], 1, 0)}

def cases(tier, seed):
    c = []
    ops = ["set", "import", "wout"]
    for i, x in enumerate("abcde"):
        for j, y in enumerate("abcde"):
            for k, op in enumerate(ops):
                if tier == "quick" and x != y and (i + j + k) % 3: continue
                if x == "d" and op != "set" or y == "d" and op != "set": 
                    if tier == "quick" and (x == y or (i + j) % 2): continue
                c.append(dict(kind="two", first=[ops[(k + i) % 3], x], second=[op, y]))
            if tier == "thorough" or (i + j) % 2: c.append(dict(kind="read", first=["set", x], second=y)); c.append(dict(kind="afterread", first=y, second=["set", x]))
        c.append(dict(kind="twice", eq=x)); c.append(dict(kind="res", eq=x)); c.append(dict(kind="surfs", eq=x)); c.append(dict(kind="flip", eq=x))
        c.append(dict(kind="afterwrite", eq=x)); c.append(dict(kind="failed", eq=x))
    for x in "abcde":
        for y in "abcde":
            i = ord(x) + 2 * ord(y)
            c.append(dict(kind="reimport", first=[("wout", "import")[i % 2], x], second=[("import", "wout")[i % 3 % 2], y]))
    for x in SAME:
        n = len(SAME[x])
        for t in range(n): c.append(dict(kind="same", uses=[SAME[x][(t + s) % n] for s in range(2 if tier == "quick" else n)]))
        c.append(dict(kind="same", uses=[SAME[x][t % n] for t in ((0, 1, 0) if n < 3 else (2, 1, 0))]))
    if tier == "thorough":
        for x in "abcde":
            for y in "abcde":
                for z in "abcde":
                    if len({x, y, z}) == 3: c.append(dict(kind="three", seq=[x, y, z]))
    return c

# uses that agree in the number of grid points, of output modes, in table sizes or in all but one of the settings
T1 = [[0, 0], [1, 2]]; T2 = [[0, 0], [2, 0]]; T3 = [[0, 0], [1, -2], [1, 2]]
SAME = {
 "points": [dict(asym=0, mboz=2, nboz=1), dict(asym=1, mboz=1, nboz=1)],
 "points0": [dict(asym=0, mboz=4, nboz=0), dict(asym=1, mboz=2, nboz=0)],
 "points2": [dict(asym=0, mboz=8, nboz=0, modes=T2, nyq=T2), dict(asym=0, mboz=2, nboz=1, modes=T2, nyq=T2), dict(asym=1, mboz=4, nboz=0, modes=T2, nyq=T2)],
 "modes": [dict(asym=0, mboz=1, nboz=4), dict(asym=0, mboz=2, nboz=1), dict(asym=0, mboz=5, nboz=0)],
 "modesasym": [dict(asym=1, mboz=2, nboz=1), dict(asym=1, mboz=5, nboz=0)],
 "nfp": [dict(asym=0, nfp=2, mboz=2, nboz=1), dict(asym=0, nfp=1, mboz=2, nboz=1, modes=[[0, 0], [1, 1]], nyq=[[0, 0], [2, 0]])],
 "nfponly": [dict(asym=0, nfp=2, mboz=2, nboz=1, modes=T2, nyq=T2), dict(asym=0, nfp=5, mboz=2, nboz=1, modes=T2, nyq=T2)],
 "tables": [dict(asym=0, mboz=2, nboz=1, modes=T1, nyq=T2), dict(asym=0, mboz=2, nboz=1, modes=T2, nyq=T1)],
 "order": [dict(asym=1, mboz=1, nboz=1, modes=T3, nyq=T3), dict(asym=1, mboz=1, nboz=1, modes=[T3[0], T3[2], T3[1]], nyq=[T3[0], T3[2], T3[1]])],
 "surfs": [dict(asym=0, mboz=2, nboz=0, surfs=[0, 1, 1]), dict(asym=0, mboz=2, nboz=0, surfs=[1, 0, 1])],
 "sym": [dict(asym=1, mboz=2, nboz=1), dict(asym=0, mboz=2, nboz=1), dict(asym=1, mboz=2, nboz=1)]}

def eqof(x, tag):
    d = EQ[x]
    ml = [tuple(m) for m in d["modes"]]; ny = [tuple(m) for m in d["nyq"]]
    return Eq(bool(d["asym"]), d["nfp"], ml, ny, ns_in=d["ns"] - 1, tag=tag, mpol=ml[-1][0] + 1, ntor=ml[-1][1] // d["nfp"], ntor_nyq=ny[-1][1] // d["nfp"], mpol_nyq=max(m for m, _ in ny))

def load(b, ob, o, op, x, tag, v=0):
    eq = eqof(x, tag); d = EQ[x]
    b.seti(o, "verbose", v)
    if op == "set":
        scen.setup(b, o, eq, scen.make_data(b, eq), None, 1, 0, v)
    elif op == "import":
        ob.eq("import", scen.vmec_import(b, o, eq, scen.vmec_data(b, eq, d["ns"], d["flux"]), d["ns"], d["flux"], v), 0)
    else:
        D = scen.vmec_data(b, eq, d["ns"], True)
        dims, V = scen.wout_vars(b, eq, d["ns"], D, b.real(tag + "aspect"))
        nm = "wout_%s%s.nc" % (tag.strip(":"), x)
        b.setfile(nm, dims, V)
        ob.eq("reading the file", b.code("h_read_wout", o, b.cstring(nm), d["flux"]), 0)
    return eq

def used(b, o, eq, loaded):
    """input quantities that are meaningful after loading"""
    r = scen.inputs(b, o)
    for f in (() if eq.asym else scen.NONNYQ_A + scen.NYQ_A): r.pop(f)
    if loaded == "set":
        for f in ("phip", "chi", "phi", "pres", "toroidal_flux", "aspect"): r.pop(f)
    if loaded == "import": r.pop("aspect")
    return r

def go(b, ob, o, x, v=0):
    s, m, n = SET[x]
    scen.settings(b, o, s, m, n, v)
    ob.eq("run", b.run(o), 0)
    return scen.results(b, o)

def cmpin(ob, label, x, y, eq): ob.same(label, x, y)

def scenario(b, ob, case):
    k = case["kind"]
    o = b.new(); v = case["v"]
    if k == "reimport":
        # two imports in a row; the user may have chosen a resolution and surfaces in between
        (op1, x1), (op2, x2) = case["first"], case["second"]
        load(b, ob, o, op1, x1, "p:", v)
        for m, n, s in ((None, None, None),) if b.choose("chosen", [0, 1]) else ((37, 23, [0, 0, 0, 0, 0, 0, 0]),): scen.settings(b, o, s, m, n, v)
        eq = load(b, ob, o, op2, x2, "q:", (v + 1) % 3)
        f = b.new(); load(b, ob, f, op2, x2, "q:")
        ob.same("imported again: ", used(b, o, eq, op2), used(b, f, eq, op2))
    elif k == "two":
        (op1, x1), (op2, x2) = case["first"], case["second"]
        load(b, ob, o, op1, x1, "p:", v); go(b, ob, o, x1, v)
        v = (v + 1) % 3
        eq = load(b, ob, o, op2, x2, "q:", v); i1 = used(b, o, eq, op2)
        r = go(b, ob, o, x2, v)
        f = b.new()
        load(b, ob, f, op2, x2, "q:"); i2 = used(b, f, eq, op2)
        ob.same("loaded again: ", i1, i2)
        r2 = go(b, ob, f, x2)
        ob.same("second use: ", r, r2)
        i3 = used(b, o, eq, op2)
        for s in ("mboz", "nboz", "compute_surfs"): i1.pop(s); i3.pop(s)
        ob.same("inputs after the run: ", i3, i1)
    elif k == "same":
        def use(t, i, d, v):
            ml, ny = [tuple(m) for m in d.get("modes", T1)], [tuple(m) for m in d.get("nyq", T2)]
            eq = Eq(bool(d["asym"]), d.get("nfp", 2), ml, ny, ns_in=2, tag="t%d:" % i)
            scen.setup(b, t, eq, scen.make_data(b, eq), d.get("surfs", [1]), d["mboz"], d["nboz"], v)
            ob.eq("run", b.run(t), 0)
            return scen.results(b, t)
        for i, d in enumerate(case["uses"]): r = use(o, i, d, (v + i) % 3)
        ob.same("last use: ", r, use(b.new(), i, d, 0))
    elif k == "three":
        for t, x in enumerate(case["seq"]):
            load(b, ob, o, ("set", "import", "wout")[(t + ord(x)) % 3], x, "t%d:" % t, v); r = go(b, ob, o, x, v)
        f = b.new()
        load(b, ob, f, ("set", "import", "wout")[(2 + ord(x)) % 3], x, "t2:"); ob.same("third use: ", r, go(b, ob, f, x))
    elif k == "read":
        # reading a result file into an object that was used for something else
        g = b.new(); load(b, ob, g, "import", case["second"], "q:"); go(b, ob, g, case["second"])
        ob.eq("write", b.code("h_write_boozmn", g, b.cstring("o.nc")), 0)
        op1, x1 = case["first"]
        load(b, ob, o, op1, x1, "p:", v); go(b, ob, o, x1, v)
        f = b.new(); b.seti(f, "verbose", 0)
        for t in (o, f): ob.eq("read", b.code("h_read_boozmn", t, b.cstring("o.nc")), 0)
        ob.same("read results: ", scen.results(b, o), scen.results(b, f))
        for s in ("asym", "nfp", "ns_in", "mboz", "nboz"): ob.eq("read " + s, b.geti(o, s), b.geti(f, s))
        for s in ("iota", "phi", "phip", "chi", "pres"): ob.arr("read " + s, b.get(o, s), b.get(f, s))
        ob.iarr("read compute_surfs", b.get(o, "compute_surfs"), b.get(f, "compute_surfs"))
        ob.real("read toroidal_flux", b.getd(o, "toroidal_flux"), b.getd(f, "toroidal_flux"))
    elif k == "afterread":
        # an object that held results of a file is used for a run
        g = b.new(); load(b, ob, g, "import", case["first"], "p:"); go(b, ob, g, case["first"])
        ob.eq("write", b.code("h_write_boozmn", g, b.cstring("o.nc")), 0)
        b.seti(o, "verbose", 0)
        ob.eq("read", b.code("h_read_boozmn", o, b.cstring("o.nc")), 0)
        op, x = case["second"]
        load(b, ob, o, op, x, "q:", v); r = go(b, ob, o, x, v)
        f = b.new(); load(b, ob, f, op, x, "q:")
        ob.same("run after reading: ", r, go(b, ob, f, x))
    elif k == "twice":
        eq = load(b, ob, o, "import", case["eq"], "p:", v)
        r = go(b, ob, o, case["eq"], v); i1 = used(b, o, eq, "import")
        ob.eq("second run", b.run(o), 0)
        ob.same("second run: ", scen.results(b, o), r)
        ob.same("inputs after the second run: ", used(b, o, eq, "import"), i1)
    elif k in ("res", "surfs"):
        eq = load(b, ob, o, "set", case["eq"], "p:", v)
        go(b, ob, o, case["eq"], v)
        f = b.new(); load(b, ob, f, "set", case["eq"], "p:")
        s, m, n = SET[case["eq"]]
        if k == "res":
            m, n = b.choose("res", [(2, 0), (1, 1), (1, 0)])
        else: s = b.choose("surfs", [[0], [eq.ns_in - 1], [0, eq.ns_in - 1, 0], []])
        for t in (o, f):
            scen.settings(b, t, s, m, n, v if t is o else 0)
            ob.eq("run", b.run(t), 0)
        ob.same("after a change: ", scen.results(b, o), scen.results(b, f))
    elif k == "flip":
        # the symmetry is switched
        eq = load(b, ob, o, "set", case["eq"], "p:", v); go(b, ob, o, case["eq"], v)
        f = b.new(); load(b, ob, f, "set", case["eq"], "p:")
        if eq.asym:
            for t in (o, f): b.seti(t, "asym", 0)
        else:
            eq.asym = True
            D = scen.make_data(b, eq)
            for t in (o, f):
                b.seti(t, "asym", 1)
                for x in scen.NONNYQ_A + scen.NYQ_A: b.put(t, x, D[x])
        ob.same("after switching the symmetry: ", go(b, ob, o, case["eq"], v), go(b, ob, f, case["eq"]))
    elif k == "afterwrite":
        # writing does not disturb a later run
        eq = load(b, ob, o, "import", case["eq"], "p:", v); r = go(b, ob, o, case["eq"], v)
        i1 = used(b, o, eq, "import")
        ob.eq("write", b.code("h_write_boozmn", o, b.cstring("o.nc")), 0)
        i2 = used(b, o, eq, "import")
        if i1["phip"].a: i1["phip"].a[0] = i2["phip"].a[0]      # the first entry is set to zero when writing (C11)
        ob.same("inputs after writing: ", i2, i1); ob.same("results after writing: ", scen.results(b, o), r)
        ob.eq("run", b.run(o), 0)
        ob.same("run after writing: ", scen.results(b, o), r)
    elif k == "failed":
        # a refused run leaves nothing behind that changes the next one
        eq = load(b, ob, o, "import", case["eq"], "p:", v); go(b, ob, o, case["eq"], v)
        scen.settings(b, o, [eq.ns_in + 3], 1, 0, v) 
        ob.eq("the run is refused", b.run(o) != 0, True)
        r = go(b, ob, o, case["eq"], v)
        f = b.new(); load(b, ob, f, "import", case["eq"], "p:")
        ob.same("after a refused run: ", r, go(b, ob, f, case["eq"]))
