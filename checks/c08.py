from checks import scen
from checks.scen import Eq, modes, NAMES, perm
from engine import rterm as R
from engine.backend import Arr
from fractions import Fraction as F

BOUNDS = "every amplitude and profile value: all real values; ns = 2..7 (thorough 12) with m up to 6 (9), selected ns up to 26 (50) and m up to 12 (17), symmetric and asymmetric, with and without flux profiles, symbolic mpol and ntor of the default resolution"
OUTSIDE = "rounding (exact reals; the square roots of the grid are exact algebraic numbers), larger sizes, mpol and ntor above 10000"
ASSUMPTIONS = []
NVAL = 16

def cases(tier, seed):
    c = []
    hi = 7 if tier == "quick" else 12
    for ns in range(2, hi + 1):
        for asym in (0, 1):
            for flux in (0, 1):
                if tier == "quick" and ns > 3 and (ns + asym + flux) % 2: continue
                mm = 3 if ns < 6 else 6
                if tier == "thorough": mm = 9 if ns > 8 else 6
                c.append(dict(ns=ns, asym=asym, flux=flux, modes=perm(modes(mm, 1, 2)) if ns % 2 else modes(mm, 1, 2), nyq=modes(2, 1, 2) if asym else modes(3, 2, 2), nfp=2))
    # more radial points, few modes
    for ns in ((9, 12, 17, 26) if tier == "quick" else (14, 17, 21, 26, 33, 50)):
        c.append(dict(ns=ns, asym=ns % 2, flux=1 - ns % 2, modes=[(0, 0), (1, 0), (1, 2), (3, 2)], nyq=[(0, 0), (1, 2)], nfp=2))
    for mm in ((12,) if tier == "quick" else (12, 17)):
        for asym in (0, 1): c.append(dict(ns=3 + asym, asym=asym, flux=0, modes=[(0, 0)] + [(m, 3) for m in range(1, mm + 1)], nyq=[(0, 0)], nfp=3))
    for asym in (0, 1):
        c.append(dict(ns=4, asym=asym, flux=1, modes=[(0, 0)], nyq=[(0, 0)], nfp=1))
        c.append(dict(ns=4, asym=asym, flux=0, modes=[(0, 0), "x"], nyq=[(0, 0)], nfp=3, mx=7))
        c.append(dict(ns=3, asym=asym, flux=1, modes=[(0, 0), (1, 0)], nyq=[(0, 0), (2, 0)], nfp=1, res=1))
    return c

def half(get, j, ns, m):
    """value on half-grid point j of a full-grid quantity"""
    a, c = get(j), get(j + 1)
    if m % 2 == 0: return R.mul(R.lift(F(1, 2)), R.add(a, c))
    sh = R.sqrt(R.lift(F(2 * j + 1, 2 * (ns - 1))))
    def over(k): return R.div(get(k), R.sqrt(R.lift(F(k, ns - 1))))
    if j == 0:
        if m == 1:
            if ns == 2: return None          # no second full-grid point away from the axis: not specified
            o1, o2 = over(1), over(2)
            axis = R.sub(R.mul(R.lift(2), o1), o2)
        else: axis = get(0)                 # amplitude/sqrt(s) on the axis: the amplitude itself vanishes there
        return R.mul(R.mul(R.lift(F(1, 2)), R.add(axis, over(1))), sh)
    return R.mul(R.mul(R.lift(F(1, 2)), R.add(over(j), over(j + 1))), sh)

def scenario(b, ob, case):
    ns, asym, flux, nfp = case["ns"], case["asym"], case["flux"], case["nfp"]
    ml = case["modes"]
    if "x" in ml:
        m = b.choose("m", list(range(1, case["mx"] + 1)))
        ml = [[0, 0], [m, -nfp], [m, 0]]
    ml = [tuple(x) for x in ml]; ny = [tuple(x) for x in case["nyq"]]
    eq = Eq(bool(asym), nfp, ml, ny, ntor=ml[-1][1] // nfp, ntor_nyq=ny[-1][1] // nfp)
    def value(B):
        def v(f, i, j):
            # amplitudes with m > 0 of R and Z vanish on the axis
            if f[0] in "rz" and j == 0 and ml[i][0] % 2: return B.const(0)
            return B.real("%s[%d,%d]" % (f, i, j))
        return v
    D = scen.vmec_data(b, eq, ns, flux, value=value(b)); W = scen.vmec_data(NAMES, eq, ns, flux, value=value(NAMES))
    o = b.new()
    b.seti(o, "verbose", case.get("v", 0))
    scen.vmec_header(b, o, eq)
    mpol, ntor = eq.mpol, eq.ntor
    if case.get("res"):
        mpol = b.integer("mpol", 1, 10000); ntor = b.integer("ntor", 0, 10000)
        nf = nfp
        b.seti(o, "mpol", mpol); b.seti(o, "ntor", ntor)
        xn = [n for _, n in ml]; xn[-1] = ntor * nf     # the mode tables have to end at n = nfp ntor
        b.put(o, "xn", xn)
    ob.eq("the import succeeds", scen.vmec_call(b, o, D, ns, flux), 0)
    ob.eq("ns_in", b.geti(o, "ns_in"), ns - 1)
    ob.arr("s_in", b.get(o, "s_in"), [R.lift(F(2 * j + 1, 2 * (ns - 1))) for j in range(ns - 1)])
    ob.arr("iota", b.get(o, "iota"), [W["iotas"](j + 1) for j in range(ns - 1)])
    ob.iarr("compute_surfs", b.get(o, "compute_surfs"), list(range(ns - 1)))
    ob.eq("mboz", b.geti(o, "mboz"), 6 * mpol)
    got = b.geti(o, "nboz")
    if type(ntor) is int: ob.eq("nboz", got, max(2 * ntor - 1, 0))
    else:
        import z3
        ob.eq("nboz", got, z3.If(ntor >= 1, 2 * ntor - 1, z3.BitVecVal(0, 32)))
    for f in ("asym", "nfp", "mnmax", "mnmax_nyq", "mpol_nyq", "ntor_nyq"):
        ob.eq(f + " unchanged", b.geti(o, f), {"asym": asym, "mnmax": len(ml), "mnmax_nyq": len(ny)}.get(f, getattr(eq, f, None)))
    for f in scen.VM + (scen.VM_A if asym else []):
        g = f[:-1]; got = b.get(o, g); w = W[f]; n = w.rows
        ob.eq(g + ".shape", got.shape(), (n, ns - 1))
        if got.shape() != (n, ns - 1): continue
        for i in range(n):
            for j in range(ns - 1):
                if g[0] in "rz":
                    e = half(lambda k: w(i, k), j, ns, ml[i][0])
                    if e is None: continue
                else: e = w(i, j + 1)
                ob.real("%s(%d,%d) m=%d" % (g, i, j, ml[i][0] if g[0] in "rzl" else ny[i][0]), got(i, j), e, 0.01)
    if flux:
        ob.arr("phip", b.get(o, "phip"), [R.div(W["phip0"](j), R.mul(R.lift(-2), R.PI)) for j in range(ns)])
        for f in ("chi", "pres", "phi"): ob.arr(f, b.get(o, f), [W[f + "0"](j) for j in range(ns)])
        ob.real("toroidal_flux", b.getd(o, "toroidal_flux"), W["phi0"](ns - 1), 0.01)
    else:
        for f in ("phip", "chi", "pres", "phi"): ob.eq(f + ".shape", b.get(o, f).rows, 0)
        ob.real("toroidal_flux", b.getd(o, "toroidal_flux"), R.lift(0))
