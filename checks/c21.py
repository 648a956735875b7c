from checks import scen
from checks.scen import Eq, modes, NAMES, q, perm, shape
from engine.backend import OUT_S, OUT_A, Arr
from checks.c01 import BOUNDS, OUTSIDE, ASSUMPTIONS
NVAL = 16

def cases(tier, seed):
    M = modes
    c = [q(False, 1, M(2, 1), M(2, 1), 2, 1),
         q(False, 3, perm(M(3, 1, 3)), perm(M(3, 2, 3)), 3, 1),
         q(False, 2, M(2, 1, 2), M(2, 1, 2), 1, 2),
         q(False, 1, M(4, 0), M(4, 0), 5, 0),
         q(False, 5, [(0, 0), (2, -5), (1, 5)], [(0, 0), (1, -5), (0, 5), (0, 10)], 2, 2),
         q(False, 4, M(2, 1, 4), M(2, 1, 4), 2, 1, surfs=[1, 0], ns_in=2),
         q(False, 10, M(2, 1, 10), M(2, 1, 10), 2, 1), q(False, 2, M(2, 1, 2)[::-1], M(3, 1, 2)[:1] + M(3, 1, 2)[:0:-1], 2, 1), q(False, 1, M(2, 0), M(3, 0), 2, 1),
         q(False, 2, M(2, 1, 2), M(2, 0, 2), 2, 1), q(False, 2, M(2, 0, 2), M(2, 1, 2), 2, 1), q(False, 3, M(2, 1, 3), M(3, 1, 3), 3, 2, surfs=[2, 0, 1], ns_in=3),
         q(False, 2, [(0, 0), (4, -2), (0, 8)], [(0, 0), (3, 0), (5, 2), (1, -10)], 1, 1), q(False, 19, [(0, 0), (1, 19)], [(0, 0), (1, -19)], 6, 2),
         q(False, 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)], 20, 0), q(False, 2, [(0, 0), (1, 2)], [(0, 0), (0, 2)], 1, 12), q(False, 5, [(0, 0), (2, 5)], [(0, 0), (2, -5)], 10, 3),
         q(False, 3, [(0, 0), "x"], [(0, 0), "y"], 2, 1, xr=[2, 2], limit=200)]
    if tier == "thorough":
        c += [q(False, 5, M(3, 2, 5), M(3, 2, 5), 3, 2, limit=900), q(False, 2, M(4, 2, 2), M(5, 3, 2), 4, 1, limit=900),
              q(False, 1, M(6, 0), M(6, 0), 10, 0, limit=900), q(False, 3, M(2, 2, 3), M(2, 2, 3), 1, 5, limit=900),
              q(False, 2, [(0, 0), "x"], [(0, 0), "y"], 3, 2, xr=[4, 3], limit=900)]
    return c

def scenario(b, ob, case):
    eq = shape(b, case)
    surfs = case.get("surfs", [0])
    D = scen.make_data(b, eq)
    o = b.new()
    scen.setup(b, o, eq, D, surfs, case["mboz"], case["nboz"], 0)
    ob.eq("symmetric run() succeeds", b.run(o), 0)
    r = scen.results(b, o)
    eq.asym = True
    for f in scen.NONNYQ_A: D[f] = Arr(len(eq.modes), eq.ns_in, [b.const(0)] * (len(eq.modes) * eq.ns_in))
    for f in scen.NYQ_A: D[f] = Arr(len(eq.nyq), eq.ns_in, [b.const(0)] * (len(eq.nyq) * eq.ns_in))
    o2 = b.new()
    scen.setup(b, o2, eq, D, surfs, case["mboz"], case["nboz"], 0)
    ob.eq("asymmetric run() succeeds", b.run(o2), 0)
    r2 = scen.results(b, o2)
    ob.same("asymmetric vs symmetric ", r2, r, skip=OUT_A)
    for f in OUT_A:
        ob.eq(f + ".shape", r2[f].shape(), r["bmnc_b"].shape())
        for k, x in enumerate(r2[f].a): ob.real("%s[%d] is zero" % (f, k), x, b.const(0), 1.0)
