from checks import scen
from checks.scen import Eq, modes, NAMES, q, perm, shape
from engine import rterm as R
from engine.backend import OUT_S, OUT_A, Arr

BOUNDS = ("every amplitude of |B|, R and Z, G, I and iota of the surface: all real values; shapes up to mboz=12 or nboz=4 (few modes: 30, 20), nfp up to 19, symmetric and asymmetric, "
          "incl. axisymmetric tables with toroidal resolution, descending tables, one mode of either table with every (m, n) of a range")
OUTSIDE = "rounding (amplitudes are exact reals), larger resolutions and mode tables, G + iota I = 0 and |B| = 0"
ASSUMPTIONS = ["floating-point values are treated as exact reals; literals and the constant pi stand for the numbers they approximate"]
NVAL = 16

def cases(tier, seed):
    M = modes
    c = [q(False, 1, M(3, 2), M(3, 1), 3, 2),
         q(True, 1, M(2, 1), M(3, 2), 3, 2),
         q(False, 3, perm(M(4, 2, 3)), perm(M(3, 2, 3)), 5, 2),
         q(True, 5, perm(M(3, 2, 5)), M(2, 2, 5), 4, 2),
         q(False, 1, M(6, 0), M(6, 0), 6, 0),
         q(False, 2, M(8, 0, 2), M(5, 0, 2), 8, 0),
         q(True, 3, M(5, 0, 3), M(7, 0, 3), 7, 0),
         q(False, 4, M(1, 3, 4), M(1, 3, 4), 1, 3, mpol_nyq=1),
         q(True, 2, M(1, 3, 2), M(1, 4, 2), 1, 4, mpol_nyq=1),
         q(False, 2, M(3, 1, 2), M(4, 2, 2), 4, 3, surfs=[1, 0], ns_in=2),
         q(False, 1, [(0, 0)], [(0, 0)], 12, 0),
         q(True, 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)], 2, 0),
         # axisymmetric tables, toroidal resolution all the same; one of the two tables axisymmetric
         q(False, 1, M(3, 0), M(4, 0), 4, 2), q(True, 3, M(2, 0, 3), M(3, 0, 3), 3, 1), q(True, 1, [(0, 0)], [(0, 0)], 1, 3),
         q(False, 2, M(3, 0, 2), M(2, 1, 2), 3, 1), q(True, 2, M(2, 1, 2), M(3, 0, 2), 3, 1),
         # tables in descending order
         q(False, 2, M(3, 1, 2)[::-1], M(3, 2, 2)[:1] + M(3, 2, 2)[:0:-1], 3, 2), q(True, 5, M(3, 1, 5)[::-1], M(2, 1, 5)[:1] + M(2, 1, 5)[:0:-1], 3, 1),
         q(False, 10, [(0, 0), (1, 10)], [(0, 0), (1, 10)], 12, 3), q(True, 19, [(0, 0), (1, -19)], [(0, 0), (2, 19)], 8, 2), q(False, 1, [(0, 0), (20, 0)], [(0, 0), (17, 0)], 30, 0), q(False, 2, [(0, 0), (1, 30)], [(0, 0), (1, -30)], 2, 20),
         q(False, 3, [(0, 0), "x"], [(0, 0), "y"], 3, 2, xr=[2, 2], limit=200),
         q(True, 2, [(0, 0), "x"], [(0, 0), "y"], 3, 1, xr=[2, 1], limit=200, which=0),
         q(True, 2, [(0, 0), "x"], [(0, 0), "y"], 2, 2, xr=[1, 2], limit=200, which=1),
         q(False, 1, [(0, 0), "x"], [(0, 0), "y"], 8, 0, xr=[7, 0], limit=200)]
    if tier == "thorough":
        c += [q(False, 5, M(8, 4, 5), M(8, 4, 5), 8, 4, limit=900),
              q(True, 2, M(6, 4, 2), M(7, 5, 2), 7, 5, limit=900),
              q(False, 1, M(16, 0), M(20, 0), 20, 0, limit=900),
              q(True, 1, M(12, 0), M(16, 0), 16, 0, limit=900),
              q(False, 3, M(1, 8, 3), M(1, 8, 3), 1, 8, mpol_nyq=1, limit=900),
              q(False, 5, [(0, 0), "x"], [(0, 0), "y"], 5, 3, xr=[4, 3], limit=900),
              q(True, 3, [(0, 0), "x"], [(0, 0), "y"], 4, 3, xr=[3, 3], limit=900)]
    return c

def scenario(b, ob, case):
    eq = shape(b, case)
    mboz, nboz = case["mboz"], case["nboz"]
    surfs = case.get("surfs", [0])
    def value(f, i, j):
        if f in ("lmns", "lmnc") or (f[:4] == "bsub" and (i > 0 or f in ("bsubumns", "bsubvmns"))): return b.const(0)
        return scen.default_value(b, eq, f, i, j)
    D = scen.make_data(b, eq, value)
    o = b.new()
    scen.setup(b, o, eq, D, surfs, mboz, nboz, case.get("v", 0))
    ob.eq("run() succeeds", b.run(o), 0)
    tab = list(zip(b.get(o, "xm_b").a, b.get(o, "xn_b").a))
    src = dict(bmnc_b="bmnc", rmnc_b="rmnc", zmns_b="zmns", bmns_b="bmns", rmns_b="rmns", zmnc_b="zmnc", numns_b=None, numnc_b=None)
    for f in OUT_S + (OUT_A if eq.asym else []):
        if f not in src: continue
        got = b.get(o, f)
        for j, js in enumerate(surfs):
            ml = eq.nyq if f[0] == "b" else eq.modes
            want = {}
            if src[f]:
                for i, x in enumerate(ml):
                    x = tuple(x); w = D[src[f]](i, js)
                    if x[0] == 0 and x[1] < 0:       # the same function as (0, -n)
                        x = (0, -x[1])
                        if src[f][2:] == "ns": w = b.const(0) - w
                    want[x] = want[x] + w if x in want else w
            for x in want:
                ob.true("the output modes contain the input mode %s" % (x,), tuple(x) in [tuple(y) for y in tab])
            if got.rows != len(tab) or got.cols != len(surfs):
                ob.eq(f + ".shape", got.shape(), (len(tab), len(surfs))); continue
            for k, x in enumerate(tab):
                m, n = x
                w = want.get(tuple(x), b.const(0))
                # sin amplitude of the constant mode has no effect and is not represented
                if (m, n) == (0, 0) and f in ("zmns_b", "bmns_b", "rmns_b"): w = b.const(0)
                ob.real("%s(m=%s,n=%s) surface %d" % (f, m, n, js), got(k, j), w, 1.0)
