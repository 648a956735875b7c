from checks import scen, spec
from checks.scen import Eq, modes, NAMES, q, perm, shape
from engine import rterm as R
from engine.backend import OUT_S, OUT_A
from fractions import Fraction as F

BOUNDS = ("every amplitude, iota of the surface: all real values; shapes: see samples - up to mboz=6 or nboz=3 (few modes: 20, 12), nfp up to 19, up to 13 input modes, symmetric and "
          "asymmetric, permuted and descending mode tables, axisymmetric tables with toroidal resolution, input modes beyond the resolution, one additional input mode with every (m, n) of a range")
OUTSIDE = "rounding (amplitudes are exact reals), larger resolutions and mode tables, G + iota I = 0 and |B| = 0"
ASSUMPTIONS = ["floating-point values are treated as exact reals; literals and the constant pi stand for the numbers they approximate"]
NVAL = 16

def cases(tier, seed):
    M = modes
    c = [q(False, 1, M(2, 1), M(2, 1), 2, 1),
         q(True, 1, M(2, 1), M(2, 1), 2, 1),
         q(False, 3, perm(M(3, 1, 3)), perm(M(3, 2, 3)), 3, 1),
         q(True, 2, M(2, 1, 2), perm(M(3, 1, 2)), 2, 1),
         q(False, 5, M(2, 1, 5), M(3, 2, 5), 2, 2),
         q(True, 3, M(2, 2, 3), M(2, 1, 3), 1, 2),
         q(False, 1, M(3, 0), M(4, 0), 4, 0),
         q(True, 2, M(3, 0, 2), M(3, 0, 2), 3, 0),
         q(False, 2, M(1, 2, 2), M(2, 2, 2), 1, 3),
         q(True, 1, M(1, 1), M(2, 2), 1, 1),
         q(False, 4, M(4, 0, 4) + [(1, 4), (2, -8)], M(2, 0, 4) + [(4, -4), (5, 4)], 4, 0, mpol=4, ntor=2),
         q(False, 1, M(2, 0), M(2, 0), 6, 0),
         q(False, 2, M(2, 0, 2), [(0, 0), (0, 2), (1, -2)], 2, 3),
         q(True, 4, [(0, 0), (1, -4)], [(0, 0), (2, 4), (0, 8)], 2, 2),
         q(True, 1, [(0, 0), (1, 0)], [(0, 0), (3, 0), (1, 0)], 5, 0),
         # the (0,0) amplitudes need not be unique nor first for the spectra; several surfaces in one run
         q(False, 3, M(2, 1, 3), M(2, 1, 3), 2, 1, surfs=[1, 0], ns_in=2),
         # axisymmetric tables, toroidal resolution all the same; one of the two tables axisymmetric
         q(False, 1, M(2, 0), M(3, 0), 2, 1), q(True, 3, M(2, 0, 3), M(2, 0, 3), 1, 2),
         q(False, 2, M(2, 0, 2), M(2, 1, 2), 2, 1), q(True, 2, M(2, 1, 2), M(2, 0, 2), 1, 1),
         # tables in descending order
         q(False, 2, M(2, 1, 2)[::-1], M(3, 1, 2)[:1] + M(3, 1, 2)[:0:-1], 2, 1), q(True, 3, M(2, 1, 3)[::-1], M(2, 1, 3)[:1] + M(2, 1, 3)[:0:-1], 2, 1),
         # input modes far beyond the requested resolution
         q(False, 2, [(0, 0), (4, -2), (0, 8)], [(0, 0), (3, 0), (5, 2), (1, -10)], 1, 1), q(True, 1, [(0, 0), (3, 0), (7, 0)], [(0, 0), (8, 0), (5, 0)], 2, 0),
         q(True, 3, [(0, 0), (5, 12)], [(0, 0), (2, -12), (6, 3)], 1, 1),
         # many field periods; few modes, larger resolutions
         q(False, 10, [(0, 0), (1, 10)], [(0, 0), (1, 10)], 2, 1), q(True, 12, [(0, 0), (1, -12)], [(0, 0), (2, 12)], 2, 1), q(False, 19, [(0, 0), (1, -19), (1, 19)], [(0, 0), (2, 19)], 3, 2),
         q(False, 5, [(0, 0), (1, 5)], [(0, 0), (1, -5)], 8, 2, limit=400), q(True, 5, [(0, 0), (1, 5)], [(0, 0), (1, -5)], 6, 1, limit=400),
         q(False, 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)], 20, 0, limit=400), q(False, 2, [(0, 0), (1, 2)], [(0, 0), (0, 2)], 1, 12, limit=400),
         # one extra mode of either table with any (m, n)
         q(False, 3, [(0, 0), "x"], [(0, 0), "y"], 2, 1, xr=[3, 2], limit=200),
         q(True, 2, [(0, 0), "x"], [(0, 0), "y"], 2, 1, xr=[2, 2], limit=200)]
    if tier == "thorough":
        c += [q(True, 5, M(3, 2, 5), M(3, 2, 5), 3, 2, limit=900),
              q(False, 2, M(4, 2, 2), M(5, 3, 2), 4, 2, limit=900),
              q(False, 7, M(3, 2, 7), perm(M(3, 3, 7)), 2, 4, limit=900),
              q(True, 1, M(3, 1), M(4, 2), 4, 2, limit=900),
              q(False, 1, M(3, 0), M(3, 0), 12, 0, limit=900), q(False, 3, [(0, 0), (1, 3)], [(0, 0), (1, -3)], 12, 3, limit=900), q(True, 2, [(0, 0), (1, 2)], [(0, 0), (0, 2)], 2, 10, limit=900), q(False, 1, [(0, 0), (1, 0)], [(0, 0), (1, 0)], 32, 0, limit=900),
              q(True, 3, M(2, 0, 3), M(2, 0, 3), 9, 0, limit=900),
              q(False, 3, M(2, 1, 3), M(2, 1, 3), 1, 7, limit=900),
              q(False, 2, [(0, 0), "x"], [(0, 0), "y"], 3, 2, xr=[4, 3], limit=900),
              q(True, 5, [(0, 0), "x"], [(0, 0), "y"], 3, 1, xr=[3, 2], limit=900)]
    return c

def scenario(b, ob, case):
    eq = shape(b, case)
    mboz, nboz = case["mboz"], case["nboz"]
    surfs = case.get("surfs", [0])
    sd = scen.make_data(NAMES, eq)
    sp = [spec.Surface(eq, sd, js, mboz, nboz) for js in surfs]
    for s in sp: s.register(max(mboz, 2) + nboz + 2)
    o = b.new()
    scen.setup(b, o, eq, scen.make_data(b, eq), surfs, mboz, nboz, case.get("v", 0))
    ob.eq("run() succeeds", b.run(o), 0)
    names = OUT_S + (OUT_A if eq.asym else [])
    ml = spec.out_modes(mboz, nboz, eq.nfp)
    got = {f: b.get(o, f) for f in names + ["Boozer_G", "Boozer_I"]}
    for j, s in enumerate(sp):
        want = s.spectra()
        for f in names:
            if got[f].rows != len(ml) or got[f].cols != len(surfs):
                ob.eq(f + ".shape", got[f].shape(), (len(ml), len(surfs)))
                continue
            for k, (m, n) in enumerate(ml):
                ob.real("%s(m=%d,n=%d) surface %d" % (f, m, n, surfs[j]), got[f](k, j), want[f][k], 1.0 if f[0] in "brg" else 0.1)
        ob.real("Boozer_G[%d]" % j, got["Boozer_G"](j), s.G); ob.real("Boozer_I[%d]" % j, got["Boozer_I"](j), s.I)
