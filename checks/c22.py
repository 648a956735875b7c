"""C22: the Python attributes and methods are the C++ quantities and operations of the same name."""
import z3
from checks import scen
from checks.scen import Eq
from engine import pyobj
from engine.backend import Arr, INTS, DBLS, IVECS, VECS, MATS, kind_of
from engine.llvmir import UNDEF

BUILDS = ["pyb"]
NATIVES = ["pyb"]
VARIANTS = ["pyb"]
VARIANT = "pyb"
NVAL = 24
BOUNDS = ("every attribute, read and written with symbolic content (integers: any 32-bit value; arrays of 0 to 4 entries or 3 x 2); constructor; init_from_vmec with positional, named and mixed arguments in several orders and "
          "with every subset of the flux profiles, both symmetries, 2 to 4 radial points; read_wout with flux absent, false and true, by position and by name; run with 0 to 3 surfaces and resolutions 1 to 3 x 0 to 2; write_boozmn and read_boozmn; failing calls; omp_max_threads for 1 to 5 threads")
OUTSIDE = "conversions of other Python types (lists, float32, strided arrays) and of overflowing integers, which pybind11 does; lifetime of array views; docstrings"
ASSUMPTIONS = ["the bindings are executed over a stand-in of the pybind11 headers with their documented meaning; replays use the real pybind11 extension module"]

OUT = "ns_b s_b mnboz xm_b xn_b bmnc_b bmns_b gmnc_b gmns_b rmnc_b rmns_b zmnc_b zmns_b numnc_b numns_b Boozer_G Boozer_G_all Boozer_I Boozer_I_all".split()
ALL = INTS + DBLS + IVECS + VECS + MATS
INP = [n for n in ALL if n not in OUT]
ORDER = "iotas rmnc0 rmns0 zmnc0 zmns0 lmnc0 lmns0 bmnc0 bmns0 bsubumnc0 bsubumns0 bsubvmnc0 bsubvmns0".split()
FLUXKW = [("phips", "phip0"), ("chi", "chi0"), ("pres", "pres0"), ("phi", "phi0")]

def cases(tier, seed):
    c = [dict(kind="new"), dict(kind="omp"), dict(kind="names")]
    B = dict(build="pyb", limit=200)
    for g in range(3): c.append(dict(kind="get", g=g))
    for g in range(8): c.append(dict(kind="set", g=g))
    c.append(dict(kind="readonly"))
    for asym in (0, 1):
        for style in ("position", "names", "reversed", "mixed", "rotated"):
            c.append(dict(kind="import", asym=asym, style=style, ns=2 + (asym + len(style)) % 3))
        for flux in (None, 0, 1): c.append(dict(kind="wout", asym=asym, flux=flux))
        c.append(dict(kind="run", asym=asym)); c.append(dict(kind="file", asym=asym))
        for mb, nb, sf in ((1, 0, [1]), (1, 1, [0]), (2, 0, []), (3, 0, [1, 0]), (1, 2, [0, 0, 1])): c.append(dict(kind="run", asym=asym, surfs=sf, mboz=mb, nboz=nb))
        c.append(dict(kind="file", asym=asym, surfs=[1], mboz=1, nboz=0)); c.append(dict(kind="file", asym=asym, surfs=[0, 1, 1], mboz=1, nboz=1))
    c.append(dict(kind="fail"))
    if tier == "thorough":
        for ns in (2, 3, 5, 8):
            for asym in (0, 1):
                for style in ("position", "names", "reversed", "mixed", "rotated"): c.append(dict(kind="import", asym=asym, style=style, ns=ns))
                c.append(dict(kind="run", asym=asym, surfs=[i % 2 for i in range(ns)], mboz=3, nboz=2))
    return [dict(B, **x) for x in c]

def snapshot(b, o):
    d = {}
    for n in INTS: d[n] = b.geti(o, n)
    for n in DBLS: d[n] = b.getd(o, n)
    for n in IVECS + VECS + MATS: d[n] = b.get(o, n)
    return d
def fresh(b, n, tag=""):
    """a new value of the attribute"""
    k = ALL.index(n)
    if n == "asym": return b.choose(tag + n, [0, 1])
    if n in INTS: return b.integer(tag + n)
    if n in DBLS: return b.real(tag + n)
    l = [2, 0, 1, 3, 4][(k + len(tag)) % 5]
    if n in IVECS: return Arr(l, 1, [b.integer("%s%s[%d]" % (tag, n, i)) for i in range(l)])
    if n in VECS: return Arr(l, 1, [b.real("%s%s[%d]" % (tag, n, i)) for i in range(l)])
    r, c = [(3, 2), (1, 2), (2, 1), (0, 0), (2, 2)][(k + len(tag)) % 5]
    return Arr(r, c, [b.real("%s%s[%d,%d]" % (tag, n, i % max(r, 1), i // max(r, 1))) for i in range(r * c)])
def put(b, o, n, v):
    if n in INTS: b.seti(o, n, v)
    elif n in DBLS: b.setd(o, n, v)
    else: b.put(o, n, v)
def tag(n): return "b" if n == "asym" else "i" if n in INTS else "d" if n in DBLS else "I" if n in IVECS else "V" if n in VECS else "M"
def compare(ob, lab, n, got, want):
    if got is UNDEF and want is UNDEF: return
    if n in INTS: return ob.eq(lab, got, want)
    if n in DBLS: return ob.real(lab, got, want)
    if not isinstance(got, Arr): return ob.true(lab + " is an array", False, got)
    ob.eq(lab + ".shape", tuple(got.shape()), tuple(want.shape()))
    if tuple(got.shape()) != tuple(want.shape()): return
    for i, (x, y) in enumerate(zip(got.a, want.a)):
        if x is y: ob.count += 1; continue
        if n in IVECS: ob.eq("%s[%d]" % (lab, i), x, y)
        else: ob.real("%s[%d]" % (lab, i), x, y)
def differ(ob, lab, a, b, skip=()):
    for n in a:
        if n not in skip: compare(ob, lab + n, n, a[n], b[n])
def arg(n, x): return ("M" if n not in ["iotas"] + [y for _, y in FLUXKW] else "V", x)

def scenario(b, ob, case):
    k = case["kind"]
    m = pyobj.module(b)
    def new():
        c, h = m.new()
        ob.eq("Booz_xform() gives an object", c, 0)
        return (h, m.cpp(h)) if c == 0 else (None, None)
    if k == "omp":
        for T in (1, 2, 3, 5):
            b.threads(T)
            c, v = m.function("omp_max_threads")
            ob.eq("omp_max_threads()", c, 0)
            if not c: ob.eq("number of threads", v, ("i", b.fn("h_omp_max_threads")))
        return
    h, o = new()
    if h is None: return
    if k == "new":
        d = b.new()
        differ(ob, "initial ", snapshot(b, o), snapshot(b, d))
        h2, o2 = new()
        if o2 is None: return
        d = snapshot(b, o2)
        for n in INP: put(b, o, n, fresh(b, n))
        differ(ob, "other object's ", snapshot(b, o2), d)
        for a in ((("i", 1),), (("s", "wout.nc"),)): ob.true("the constructor takes no arguments", m.new(*a)[0] != 0)
        return
    if k == "names":
        for n in ALL: ob.eq("attribute %s exists" % n, m.get(h, n)[0], 0)
        for n in ("nothing", "rmnc_", "booz"): ob.true("no attribute %s" % n, m.get(h, n)[0] != 0)
        return
    vals = {}
    if k in ("get", "set", "readonly"):
        for n in ALL:
            vals[n] = fresh(b, n) if (n != "asym" or k == "get") else 1
            put(b, o, n, vals[n])
    if k == "get":
        for n in ALL[case["g"]::3]:
            c, v = m.get(h, n)
            ob.eq("%s can be read" % n, c, 0)
            if c: continue
            ob.eq("kind of " + n, v[0], tag(n))
            if v[0] == tag(n): compare(ob, n, n, v[1], vals[n])
        differ(ob, "after reading, ", snapshot(b, o), vals)
        return
    if k == "set":
        if case["g"] % 2:
            # through the object itself rather than around it
            h2, o2 = new()
            for n in INP:
                if n != "asym": vals[n] = fresh(b, n, "w"); ob.eq("%s can be written" % n, m.set(h, n, (tag(n), vals[n])), 0)
            differ(ob, "all written, ", snapshot(b, o), vals)
        for n in INP[case["g"]::8]:
            v = fresh(b, n, "new")
            ob.eq("%s can be written" % n, m.set(h, n, (tag(n), v)), 0)
            now = snapshot(b, o)
            compare(ob, "written " + n, n, now[n], v)
            differ(ob, "after writing %s, " % n, now, vals, (n,))
            vals[n] = v
            c, w = m.get(h, n)
            if c == 0 and w[0] == tag(n): compare(ob, n + " read back", n, w[1], v)
            else: ob.true(n + " read back", False, (c, w))
        return
    if k == "readonly":
        for n in OUT:
            v = 7 if n in INTS else Arr(2, 1, [1, 2]) if n in IVECS else Arr(2, 1, [b.const(1), b.const(2)])
            ob.true("%s cannot be written" % n, m.set(h, n, (tag(n), v)) != 0)
        ob.true("no attribute is made up", m.set(h, "nothing", ("i", 1)) != 0)
        differ(ob, "after that, ", snapshot(b, o), vals)
        return
    d = b.new()     # the C++ twin
    for x in (d, o): b.seti(x, "verbose", 0)
    if k == "fail":
        kd = b.choose("what", ["run", "read_wout", "read_boozmn", "write_boozmn", "init"])
        if kd == "run": c = m.call(h, "run")[0]; r = b.run(d)
        elif kd == "init":
            e = Arr(0, 0, [])
            c = m.call(h, "init_from_vmec", [("i", 3)] + [arg(n, e if n != "iotas" else Arr(0, 1, [])) for n in ORDER])[0]; r = b.code("h_import", d, b.fn("h_anew"), 3)
        elif kd == "write_boozmn": c = m.call(h, kd, [("s", "nowhere/x.nc")])[0]; r = b.code("h_write_boozmn", d, b.cstring("nowhere/x.nc"))
        else:
            c = m.call(h, kd, [("s", "missing.nc")])[0]
            r = b.code("h_" + kd, d, b.cstring("missing.nc"), *([0] if kd == "read_wout" else []))
        ob.true("a failing %s raises an exception" % kd, c != 0 and r != 0, (c, r))
        return
    asym = case["asym"]
    eq = Eq(bool(asym), 2, [(0, 0), (1, -2), (1, 2)], [(0, 0), (1, 0), (1, 4)], ntor=1, ntor_nyq=2)
    same = lambda lab: differ(ob, lab, snapshot(b, o), snapshot(b, d))
    if k == "import":
        ns, style = case["ns"], case["style"]
        D = scen.vmec_data(b, eq, ns, True)
        E = {n: D.get(n, Arr(0, 0, [])) for n in ORDER}
        if style == "position": sub = FLUXKW[: b.choose("profiles", [0, 1, 2, 3, 4])]
        else:
            bits = b.choose("profiles", list(range(16)))
            sub = [x for i, x in enumerate(FLUXKW) if bits >> i & 1]
        pos, kw = [("i", ns)], []
        if style == "position": pos += [arg(n, E[n]) for n in ORDER] + [arg(n, D[n]) for _, n in sub]
        else:
            kw = [(n, arg(n, E[n])) for n in ORDER] + [(p, arg(n, D[n])) for p, n in sub]
            if style == "mixed": cut = 5; pos += [v for _, v in kw[:cut]]; kw = kw[cut:]; kw = kw[1::2] + kw[::2]
            else:
                kw = [("ns", pos.pop())] + kw
                if style == "reversed": kw.reverse()
                if style == "rotated": kw = kw[7:] + kw[:7]
        for x in (d, o): scen.vmec_header(b, x, eq)
        c, v = m.call(h, "init_from_vmec", pos, kw)
        F = dict(E); F.update({n: D[n] for _, n in sub}); F.update({n: Arr(0, 1, []) for _, n in FLUXKW if n not in F})
        r = scen.vmec_call(b, d, F, ns, True)
        ob.eq("init_from_vmec returns", (c == 0, v), (r == 0, ("0", None) if r == 0 else None))
        same("after init_from_vmec, ")
        if r == 0:
            # the defaults are the same the next time
            scen.vmec_header(b, o, eq)
            c, v = m.call(h, "init_from_vmec", [("i", ns)] + [arg(n, E[n]) for n in ORDER])
            ob.eq("init_from_vmec again", c, 0)
            for _, n in FLUXKW: F[n] = Arr(0, 1, [])
            scen.vmec_header(b, d, eq)
            ob.eq("import again", scen.vmec_call(b, d, F, ns, True), 0)
            same("after init_from_vmec again, ")
        for bad in ([], pos[:-1] if not kw else pos, ): ob.true("missing arguments are noticed", (m.call(h, "init_from_vmec", bad)[0] != 0) or len(bad) >= 14, bad)
        ob.true("unknown names are noticed", m.call(h, "init_from_vmec", pos, kw + [("nothing", ("i", 1))])[0] != 0)
        return
    if k == "wout":
        ns, flux = 3, case["flux"]
        D = scen.vmec_data(b, eq, ns, True)
        b.setfile("wout_x.nc", *scen.wout_vars(b, eq, ns, D, b.real("aspect")))
        by = b.choose("by", ["position", "name", "swapped"])
        f, x = ("s", "wout_x.nc"), ("b", flux or 0)
        if flux is None: a = ([f], []) if by == "position" else ([], [("filename", f)])
        elif by == "position": a = ([f, x], [])
        elif by == "name": a = ([f], [("flux", x)])
        else: a = ([], [("flux", x), ("filename", f)])
        c, v = m.call(h, "read_wout", *a)
        ob.eq("read_wout returns", (c, v), (0, ("0", None)))
        ob.eq("C++ reads the file", b.code("h_read_wout", d, b.cstring("wout_x.nc"), flux or 0), 0)
        same("after read_wout, ")
        return
    # a run, and result files
    eq.ns_in = 2
    D = scen.make_data(b, eq)
    for x in (d, o): scen.setup(b, x, eq, D, case.get("surfs", [1, 0]), case.get("mboz", 2), case.get("nboz", 1), 0)
    c, v = m.call(h, "run")
    ob.eq("run returns", (c, v), (0, ("0", None)))
    ob.eq("C++ runs", b.run(d), 0)
    same("after run, ")
    if k == "run":
        now = snapshot(b, o)
        for n in ALL:
            c, v = m.get(h, n)
            ob.eq("%s can be read" % n, c, 0)
            if c == 0 and v[0] == tag(n): compare(ob, "after run, attribute " + n, n, v[1], now[n])
        return
    by = b.choose("by", ["position", "name"])
    f = lambda n: ([("s", n)], []) if by == "position" else ([], [("filename", ("s", n))])
    c, v = m.call(h, "write_boozmn", *f("boozmn_p.nc"))
    ob.eq("write_boozmn returns", (c, v), (0, ("0", None)))
    ob.eq("C++ writes", b.code("h_write_boozmn", d, b.cstring("boozmn_c.nc")), 0)
    A, B = b.getfile("boozmn_p.nc"), b.getfile("boozmn_c.nc")
    ob.true("a file is written", A is not None)
    if A is None: return
    ob.eq("dimensions", sorted(A["dims"]), sorted(B["dims"])); ob.eq("variables", sorted(A["vars"]), sorted(B["vars"]))
    for n, w in B["vars"].items():
        g = A["vars"].get(n)
        if g is None: continue
        if w["type"] == "c": ob.eq(n, g["data"], w["data"]); continue
        x, y = g["data"] or [], w["data"] or []
        ob.eq(n + ".size", len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            if p is q: ob.count += 1
            elif w["type"] == "i": ob.eq("%s[%d]" % (n, i), p, q)
            else: ob.real("%s[%d]" % (n, i), p, q)
    h2, o2 = new(); d2 = b.new()
    if h2 is None: return
    for x in (o2, d2): b.seti(x, "verbose", 0)
    c, v = m.call(h2, "read_boozmn", *f("boozmn_c.nc"))
    ob.eq("read_boozmn returns", (c, v), (0, ("0", None)))
    ob.eq("C++ reads", b.code("h_read_boozmn", d2, b.cstring("boozmn_c.nc")), 0)
    differ(ob, "after read_boozmn, ", snapshot(b, o2), snapshot(b, d2))
