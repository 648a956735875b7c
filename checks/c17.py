from checks import scen
from checks.scen import NAMES
from engine import rterm as R
from engine.backend import Arr

TRIG = True
BUILDS = ["asserts"]
NATIVES = ["plain", "asan"]
BOUNDS = "every angle: all real values; 1..3 points; every mmax and nmax from 0 to 8 (thorough: 20), nfp 1 and 2, for small tables to 12 and 19; selected larger tables, up to 65 (thorough: 129), and up to 33 points"
OUTSIDE = "rounding (exact reals), larger tables"
ASSUMPTIONS = ["the tables are zero before the call and have one column per mode number, as the library's own calls arrange"]
NVAL = 16

def cases(tier, seed):
    M = 8 if tier == "quick" else 20
    c = [dict(m=m, nmax=M, npts=2, build="asserts") for m in range(M + 1)]
    big = [9, 10, 12, 15, 16, 17, 20, 24, 32, 33, 48, 49, 64, 65] if tier == "quick" else [*range(21, 66), 96, 97, 100, 127, 128, 129]
    c += [dict(m=m, ns=[0, m - 2] if m < 34 else [0], nmax=0, npts=1, build="asserts", limit=800) for m in big] + [dict(m=1, ns=[m], nmax=0, npts=1, build="asserts", limit=800) for m in big]
    c += [dict(m=m, ns=[n], nmax=0, npts=p, nfps=1, build="asserts") for m, n, p in ((4, 4, 4), (5, 3, 6), (0, 8, 5), (2, 7, 9), (9, 9, 4), (12, 12, 12), (0, 0, 17), (1, 1, 16), (3, 2, 33), (33, 33, 2))]
    c += [dict(m=m, ns=[n], nmax=0, npts=1, nfpl=[k], build="asserts", limit=200) for m, n, k in ((2, 3, 3), (1, 4, 5), (3, 2, 10), (0, 3, 7), (2, 1, 19))]
    c += [dict(m=2, nmax=2, npts=3, nfps=12, build="asserts"), dict(m=1, nmax=1, npts=0, build="asserts"), dict(m=0, nmax=0, npts=1, nfps=12, build="asserts")]
    return c

def scenario(b, ob, case):
    npts, m = case["npts"], case["m"]
    n = b.choose("nmax", case.get("ns") or list(range(case["nmax"] + 1)))
    nfp = b.choose("nfp", case.get("nfpl") or list(range(1, case.get("nfps", 2) + 1)))
    th = ["theta[%d]" % i for i in range(npts)]; ze = ["zeta[%d]" % i for i in range(npts)]
    if b.symbolic:
        for x in th: R.add_hint_group([R.var(x)], m + 2)
        for x in ze: R.add_hint_group([R.mul(R.lift(nfp), R.var(x))], n + 2)
    t = b.fn("h_tnew")
    b.put(t, "theta", [b.real(x) for x in th], "T"); b.put(t, "zeta", [b.real(x) for x in ze], "T")
    for f, k in (("cosm", m), ("sinm", m), ("cosn", n), ("sinn", n)): b.resize(t, f, npts, k + 1, "T")
    b.fn("h_tzero", t)
    ob.eq("the computation succeeds", b.code("h_trig", t, m, n, nfp), 0)
    for f, k, ang, fac in (("cosm", m, th, 1), ("sinm", m, th, 1), ("cosn", n, ze, nfp), ("sinn", n, ze, nfp)):
        a = b.get(t, f, "T")
        ob.eq(f + ".shape", a.shape(), (npts, k + 1))
        if a.shape() != (npts, k + 1): continue
        for i in range(npts):
            for j in range(k + 1):
                w = (R.cos if f[0] == "c" else R.sin)(R.mul(R.lift(j * fac), R.var(ang[i])))
                ob.real("%s(%d,%d)" % (f, i, j), a(i, j), w, 1.0)
    ob.arr("theta unchanged", b.get(t, "theta", "T"), [R.var(x) for x in th]); ob.arr("zeta unchanged", b.get(t, "zeta", "T"), [R.var(x) for x in ze])
