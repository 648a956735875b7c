from checks import scen
from checks.scen import Eq, modes, perm
from engine.backend import Arr

BOUNDS = ("radial points 2..5, mode tables from a single mode up to 9 modes in VMEC and permuted order, nfp 1..5, symmetric and asymmetric (any nonzero flag), with and without flux profiles, verbosity 0..2; "
          "every amplitude, profile and the aspect ratio symbolic; files that contain only the needed variables, and files that contain other quantities (asymmetric ones, flux profiles and further VMEC variables) as well")
OUTSIDE = "larger sizes; files whose header disagrees with the data (C14)"
ASSUMPTIONS = ["the netCDF library returns the file's values (modelled)"]
NVAL = 16
# further variables that VMEC writes, with values that belong to nothing that is loaded
DECOYS = ["iotaf", "presf", "phips", "phip", "chipf", "mass", "buco", "bvco", "vp", "specw", "beta_vol", "jcuru", "jcurv", "DMerc", "q_factor"]
DECOYM = ["gmnc", "gmns", "bsupumnc", "bsupvmnc", "bsupumns", "bsupvmns", "bsubsmns", "bsubsmnc", "currumnc", "currvmnc", "bmnc_b"]
SCAL = ["b0", "rbtor", "Rmajor_p", "Aminor_p", "betatotal", "volume_p", "aspect_b"]
SCALI = ["mnyq", "nnyq", "ns_b", "nfp_b", "mnmaxpot", "niter", "mpol_nyq", "ntor_nyq", "signgs"]

SH = [dict(nfp=1, modes=[[0, 0]], nyq=[[0, 0]]),
      dict(nfp=3, modes=[[0, 0], [1, 0]], nyq=[[0, 0], [0, 3]]),
      dict(nfp=2, modes=[[0, 0], [0, 2], [1, -2], [1, 0], [1, 2]], nyq=[[0, 0], [1, -4], [2, 2], [2, 4]]),
      dict(nfp=5, modes=[[0, 0], [1, -5], [2, 5]], nyq=[[0, 0], [1, 5], [3, -5], [3, 10]]),
      dict(nfp=1, modes=[[0, 0], [2, 1], [1, -1], [0, 1]], nyq=[[0, 0], [4, 3], [1, 1], [2, 0]], mpol=3)]

def cases(tier, seed):
    c = []
    for i, s in enumerate(SH):
        for asym in (0, 1):
            for flux in (0, 1):
                for decoy in (0, 1):
                    c.append(dict(s, kind="read", asym=asym, flux=flux, decoy=decoy, ns=2 + (i + asym + flux + decoy) % 4, verbose=(i + decoy) % 3))
    for lasym in (2, -1, 256): c.append(dict(SH[1 + lasym % 2], kind="read", asym=1, lasym=lasym, flux=lasym % 2, decoy=1, ns=3, verbose=0))
    for asym in (0, 1): c.append(dict(SH[2], kind="default", asym=asym, ns=3)); c.append(dict(SH[1], kind="missing", asym=asym, ns=3))
    if tier == "thorough":
        for s in SH + [dict(nfp=n, modes=[list(x) for x in modes(m, k, n)], nyq=[list(x) for x in modes(m + 1, k + 1, n)]) for n, m, k in ((1, 3, 2), (4, 4, 1), (7, 2, 3))]:
            for asym in (0, 1):
                for flux in (0, 1):
                    for ns in (2, 3, 6, 9): c.append(dict(s, kind="read", asym=asym, flux=flux, decoy=1, ns=ns, verbose=ns % 4))
    return c

def shape(case):
    ml = [tuple(x) for x in case["modes"]]; ny = [tuple(x) for x in case["nyq"]]
    return Eq(bool(case["asym"]), case["nfp"], ml, ny, mpol=case.get("mpol", max(m for m, _ in ml) + 1), ntor=ml[-1][1] // case["nfp"],
              mpol_nyq=ny[-1][0], ntor_nyq=ny[-1][1] // case["nfp"])

def decoys(b, eq, ns):
    V = [(n, "d", [], [b.real("decoy_" + n)]) for n in SCAL] + [(n, "i", [], [77 + i]) for i, n in enumerate(SCALI)]
    V += [(n, "d", ["radius"], [b.real("decoy_%s[%d]" % (n, j)) for j in range(ns)]) for n in DECOYS]
    V += [(n, "d", ["radius", "mn_mode_nyq"], [b.real("decoy_%s[%d]" % (n, j)) for j in range(ns * len(eq.nyq))]) for n in DECOYM]
    return V

def scenario(b, ob, case):
    eq = shape(case); ns = case["ns"]; k = case["kind"]
    fname = ["wout_x.nc", "w", "w" * 180 + ".nc", "a b.%s{0}.NC4"][(ns + len(eq.modes) + case.get("verbose", 0)) % 4]
    flux = bool(case.get("flux", 0)); decoy = case.get("decoy", 0)
    # what the file contains
    D = scen.vmec_data(b, eq, ns, True, asym=bool(eq.asym or decoy))
    F = dict(D)
    if not decoy and not flux and k != "default":
        for f in scen.FLUX: F.pop(f)
    aspect = b.real("aspect")
    dims, V = scen.wout_vars(b, eq, ns, F, aspect)
    if decoy: V = decoys(b, eq, ns)[::2] + V[::-1] + decoys(b, eq, ns)[1::2]
    if k == "missing":
        need = [n for n, _, _, _ in V]
        m = b.choose("missing", need)
        V = [v for v in V if v[0] != m]
    if "lasym" in case: V = [(n, t, d, [case["lasym"]] if n == "lasym__logical__" else x) for n, t, d, x in V]
    b.setfile(fname, dims, V)
    o = b.new(); b.seti(o, "verbose", case.get("verbose", 0))
    if (flux + decoy) % 2:
        # the object holds other things
        for f in scen.DBLS: b.setd(o, f, b.real("old:" + f))
        for f in scen.IN_I + ["ns_b", "mnboz"]: b.seti(o, f, b.integer("old:" + f, -3, 1000))
        for f in scen.IN_A:
            r, cc = b.shape(o, f)
            n = 4 + len(f) % 3
            b.put(o, f, [7] * n if f[0] == "x" or f == "compute_surfs" else Arr(n, 1 if f in ("s_in", "iota", "phi", "phip", "chi", "pres") else 3, [b.const(5)] * (n * (1 if f in ("s_in", "iota", "phi", "phip", "chi", "pres") else 3))))
    if k == "missing":
        fl = b.choose("flux", [0, 1])
        ok = m in [scen.WOUT[f] for f in scen.FLUX] and not fl
        ob.eq("reading a file without %s %s" % (m, "succeeds" if ok else "fails"), b.code("h_read_wout", o, b.cstring(fname), fl) == 0, ok)
        return
    if k == "default": r = b.code("h_read_wout1", o, b.cstring(fname))
    else: r = b.code("h_read_wout", o, b.cstring(fname), int(flux))
    ob.eq("reading the file succeeds", r, 0)
    # importing the same data through the interface
    f = b.new()
    I = {x: a for x, a in D.items() if (eq.asym or x not in scen.VM_A) and (flux or x not in scen.FLUX)}
    ob.eq("importing the data succeeds", scen.vmec_import(b, f, eq, I, ns, flux, 0), 0)
    b.setd(f, "aspect", aspect)
    x, y = scen.inputs(b, o), scen.inputs(b, f)
    if not eq.asym:
        for t in scen.NONNYQ_A + scen.NYQ_A: x.pop(t); y.pop(t)
    ob.same("", x, y)
    # the numbers that the import does not compute, stated directly
    for t, w in (("asym", int(eq.asym)), ("nfp", eq.nfp), ("mpol", eq.mpol), ("ntor", eq.ntor), ("mnmax", len(eq.modes)), ("mnmax_nyq", len(eq.nyq)), ("mpol_nyq", eq.nyq[-1][0]),
                 ("ntor_nyq", eq.nyq[-1][1] // eq.nfp), ("ns_in", ns - 1)): ob.eq(t, x[t], w)
    ob.real("aspect", x["aspect"], aspect)
