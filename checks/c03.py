from checks import scen
from checks.scen import Eq, modes, NAMES, q, perm, shape
from engine.backend import OUT_S, OUT_A, Arr

BOUNDS = ("resolution: every mboz and nboz of the stated ranges, each explored; number of field periods: one symbolic integer 1..1000; surface lists of length 0..5, up to 5 input surfaces; "
          "symmetric and asymmetric; fresh objects and objects used before at another resolution, symmetry or number of periods")
OUTSIDE = "larger resolutions and longer surface lists"
ASSUMPTIONS = []
NVAL = 16

def cases(tier, seed):
    c = []
    MB, NB = (8, 4) if tier == "quick" else (24, 10)
    for a in (False, True):
        for n in range(NB + 1): c.append(dict(kind="table", asym=a, nboz=n, mb=MB, noval=a))
    for a in (False, True):
        for mb, nb in ([(1, 0), (1, 1), (2, 0), (2, 1)] if tier == "quick" else [(1, 0), (1, 1), (2, 0), (2, 1), (3, 2), (1, 3), (4, 1)]):
            for ns in (1, 2, 3): c.append(dict(kind="size", asym=a, nboz=nb, mboz=mb, ns=ns))
    # more input surfaces than requested, and more requested than there are
    for a in (False, True):
        c.append(dict(kind="size", asym=a, nboz=1, mboz=1, ns=3, nin=5, lst=[4, 0, 2])); c.append(dict(kind="size", asym=a, nboz=0, mboz=2, ns=5, nin=2, lst=[1, 0, 0, 1, 1]))
        c.append(dict(kind="size", asym=a, nboz=1 - a, mboz=1 + a, ns=1, nin=1, lst=[0])); c.append(dict(kind="size", asym=a, nboz=0, mboz=1, ns=0, nin=3, lst=[]))
    # the object was used before: every earlier resolution with the same number of modes, and others
    R = [(1, 4), (2, 1), (5, 0), (1, 0), (1, 1), (2, 0)] + ([] if tier == "quick" else [(3, 2), (1, 12), (13, 0), (2, 4), (4, 1)])
    for a in (0, 1):
        for i, (mb, nb) in enumerate(R):
            bef = [(x, y, (a + j) % 2, [1] if j % 3 else [2, 0], 3 if (x, y) != (mb, nb) else 2) for j, (x, y) in enumerate(R)]
            c.append(dict(kind="size", asym=bool(a), nboz=nb, mboz=mb, ns=1 + i % 2, before=bef))
    return c

def scenario(b, ob, case):
    asym = case["asym"]
    if case["kind"] == "table":
        nboz = case["nboz"]
        mboz = b.choose("mboz", list(range(1, case["mb"] + 1)))
        nfp = b.integer("nfp", 1, 1000)
        eq = Eq(asym, 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)], ns_in=2)
        surfs = []
    else:
        nboz, mboz, nfp = case["nboz"], case["mboz"], 3
        eq = Eq(asym, 3, [(0, 0), (1, 0)], [(0, 0), (1, 0)], ns_in=case.get("nin", 3))
        surfs = case.get("lst", list(range(case["ns"]))[::-1])
    o = b.new()
    if case.get("before"):
        # an earlier run of the same object at another resolution, symmetry or number of periods
        mb0, nb0, a0, s0, nfp0 = b.choose("before", case["before"])
        e0 = Eq(bool(a0), nfp0, [(0, 0), (1, 0)], [(0, 0), (1, 0)], ns_in=3, tag="old:")
        scen.setup(b, o, e0, scen.make_data(b, e0), s0, mb0, nb0, case.get("v", 0))
        ob.eq("the earlier run succeeds", b.run(o), 0)
    scen.setup(b, o, eq, scen.make_data(b, eq), surfs, mboz, nboz, case.get("v", 0) if case["kind"] == "table" or case.get("before") else b.choose("verbose", [0, 1, 2, 3]))
    if case["kind"] == "table": b.seti(o, "nfp", nfp)
    ob.eq("run() succeeds", b.run(o), 0)
    tab = [(m, n) for m in range(mboz) for n in range(0 if m == 0 else -nboz, nboz + 1)]
    ob.eq("mnboz", b.geti(o, "mnboz"), len(tab))
    ob.eq("ns_b", b.geti(o, "ns_b"), len(surfs))
    ob.eq("mboz unchanged", b.geti(o, "mboz"), mboz); ob.eq("nboz unchanged", b.geti(o, "nboz"), nboz)
    ob.iarr("xm_b", b.get(o, "xm_b"), [m for m, n in tab])
    ob.iarr("xn_b", b.get(o, "xn_b"), [n * nfp for m, n in tab])
    for f in OUT_S: ob.eq(f + ".shape", b.shape(o, f), (len(tab), len(surfs)))
    for f in OUT_A: ob.eq(f + ".shape", b.shape(o, f), (len(tab), len(surfs)) if asym else (0, 0))
    for f in ("s_b", "Boozer_G", "Boozer_I"): ob.eq(f + ".size", b.shape(o, f)[0], len(surfs))
    for f in ("Boozer_G_all", "Boozer_I_all"): ob.eq(f + ".size", b.shape(o, f)[0], eq.ns_in)
