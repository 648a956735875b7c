from checks import scen
from checks.scen import Eq
import z3

BUILDS = ["plain"]
NATIVES = ["faults"]
VARIANTS = ["faults"]
VARIANT = "faults"
BOUNDS = ("every call of the file library made while reading a VMEC file, writing or reading results, each failing with any error code in -150..150 except 0 (one symbolic integer per call), "
          "up to two failures per operation; files in which any one variable or dimension is missing, has another length or another type; "
          "equilibria of 3 radial points and 3 modes, and of the smallest sizes (thorough: up to 5 points and 6 modes), symmetric and asymmetric, with and without flux profiles, verbosity 0..2")
OUTSIDE = "failures inside the library that it does not report; more than two failures"
ASSUMPTIONS = ["a failing library call has no effect and leaves its output arguments as they were"]
NVAL = 24
ENOTVAR, EBADDIM = -49, -46

def cases(tier, seed):
    c = []
    SH = dict(nfp=2, modes=[[0, 0], [1, -2], [1, 2]], nyq=[[0, 0], [1, 2]], ns=3)
    for asym in (0, 1):
        for flux in (0, 1):
            B = dict(SH, asym=asym, flux=flux, limit=300, nval=4)
            v = (asym + flux) % 2
            for verb in ([v] if tier == "quick" else [0, 1, 2]):
                c.append(dict(B, op="wout", kind="fault", verbose=verb))
                c.append(dict(B, op="write", kind="fault", verbose=verb))
                c.append(dict(B, op="boozmn", kind="fault", verbose=verb, chi=1))
            c.append(dict(B, op="wout", kind="absent", verbose=v))
            c.append(dict(B, op="boozmn", kind="absent", verbose=v, chi=1))
        c.append(dict(SH, asym=asym, flux=1, limit=300, op="boozmn", kind="fault", verbose=asym, chi=0, nval=4))
        c.append(dict(SH, asym=asym, flux=0, limit=300, op="open", kind="open", verbose=0))
    # the smallest sizes: one surface, one mode
    for asym in (0, 1):
        T = dict(nfp=1, modes=[[0, 0]], nyq=[[0, 0]], ns=2 + asym, surfs=[0], mb=1, nb=0, asym=asym, flux=1 - asym, verbose=0, limit=300, nval=4)
        c.append(dict(T, op="wout", kind="fault"))
        for k in ("fault", "absent"):
            c.append(dict(T, op="boozmn", kind=k, chi=1))
        c.append(dict(T, op="write", kind="fault"))
        if tier == "thorough":
            L = dict(nfp=3, modes=[[0, 0], [0, 3], [1, -3], [1, 0], [1, 3]], nyq=[[0, 0], [0, 3], [1, -3], [1, 0], [1, 3], [2, 3]], ns=5, surfs=[3, 0, 3, 1], mb=2, nb=2, asym=asym, verbose=asym, limit=900, nval=4)
            for fl in (0, 1):
                for k in ("fault", "absent"):
                    c.append(dict(L, op="wout", kind=k, flux=fl)); c.append(dict(L, op="boozmn", kind=k, chi=fl, flux=1))
                c.append(dict(L, op="write", kind="fault", flux=fl))
    return c

def change(b, f, dims, V, tolerated):
    """remove or spoil one variable; -> (variables, what was done, is an error due)"""
    n = b.choose("variable", list(range(len(V))))
    how = b.choose("how", ["absent", "longer", "shorter", "text"])
    nm, ty, ds, vals = V[n]
    W = list(V)
    if how == "absent": del W[n]; return W, nm + " is absent", nm not in tolerated
    if how == "text": W[n] = (nm, "c", ds, vals); return W, nm + " is text", True
    if how == "shorter" and not vals: return V, "", False
    d = "other%d" % n
    k = len(vals) + (1 if how == "longer" else -1)
    if k == 0: return V, "", False
    dims.append((d, k))
    W[n] = (nm, ty, [d], (list(vals) + [vals[0]])[:k])
    return W, nm + " is " + how, True

def scenario(b, ob, case):
    op, kind = case["op"], case["kind"]
    o = b.new()
    b.seti(o, "verbose", case["verbose"])
    ml = [tuple(x) for x in case["modes"]]; ny = [tuple(x) for x in case["nyq"]]
    eq = Eq(bool(case["asym"]), case["nfp"], ml, ny, ntor=ml[-1][1] // case["nfp"], ntor_nyq=ny[-1][1] // case["nfp"], ns_in=case["ns"] - 1)
    if kind == "open":
        for f in ("h_read_wout1", "h_read_boozmn"): ob.true(f + " of a file that does not exist raises an error", b.code(f, o, b.cstring("missing.nc")) != 0)
        return
    if op == "wout":
        D = scen.vmec_data(b, eq, case["ns"], True)
        dims, V = scen.wout_vars(b, eq, case["ns"], D, b.real("aspect"))
        due, what = False, ""
        if kind == "absent":
            # the flux profiles are only needed if they are requested
            opt = [] if case["flux"] else [scen.WOUT[x] for x in scen.FLUX]
            W, what, due = change(b, "wout", dims, [v for v in V if v[0] not in opt], [])
            V = W + [v for v in V if v[0] in opt]
        b.setfile("w.nc", dims, V)
        call = lambda: b.code("h_read_wout", o, b.cstring("w.nc"), case["flux"])
    else:
        dims, V = scen.boozmn_vars(b, eq.asym, eq.nfp, case["ns"], case.get("surfs", [1, 0]), case.get("mb", 1), case.get("nb", 1))
        due, what = False, ""
        if op == "write":
            # an object with results
            b.setfile("a.nc", dims, V)
            b.seti(o, "verbose", 0)
            ob.eq("reading succeeds", b.code("h_read_boozmn", o, b.cstring("a.nc")), 0)
            if not case["flux"]:
                for f in ("phi", "phip", "chi", "pres"): b.put(o, f, [])
            b.setd(o, "aspect", b.real("aspect"))
            ob.eq("writing succeeds", b.code("h_write_boozmn", o, b.cstring("a.nc")), 0)
            b.seti(o, "verbose", case["verbose"])
            call = lambda: b.code("h_write_boozmn", o, b.cstring("b.nc"))
        else:
            V = [v for v in V if v[0] != "chi_b" or case["chi"]]
            if kind == "absent":
                need = "lasym__logical__ nfp_b mboz_b nboz_b mnboz_b ns_b ixm_b ixn_b jlist iota_b bvco_b buco_b phi_b phip_b chi_b pres_b bmnc_b rmnc_b zmns_b pmns_b gmn_b bmns_b rmns_b zmnc_b pmnc_b gmns_b".split()
                W, what, due = change(b, "boozmn", dims, [v for v in V if v[0] in need], ["chi_b"])
                V = W + [v for v in V if v[0] not in need]
                d = b.choose("dimension", ["", "radius", "comput_surfs"]) if not what else ""
                if d:
                    # the dimension has another name
                    dims = [("no" + x if x == d else x, l) for x, l in dims]
                    V = [(n, t, ["no" + x if x == d else x for x in ds], l) for n, t, ds, l in V]
                    due, what = True, "dimension %s is absent" % d
            b.setfile("c.nc", dims, V)
            call = lambda: b.code("h_read_boozmn", o, b.cstring("c.nc"))
    if kind == "absent":
        r = call()
        if due: ob.true("an error is raised if " + what, r != 0)
        else: ob.eq("success " + what, r, 0)
        return
    b.faults_begin()
    r = call()
    log = b.faults_end()
    if not log:
        ob.eq("without a failure the operation succeeds", r, 0)
        return
    ob.count += 1
    if r != 0:
        ob.true("the failure is reported", True)
        return
    for opn, nm, code in log:
        lab = "a failing %s%s is reported" % (opn, "(%s)" % nm if nm else "")
        if op == "boozmn" and opn == "nc_inq_varid" and nm == "chi_b": ob.true(lab, code == ENOTVAR)
        elif op == "write" and opn.startswith("nc_inq"):
            # a failed look-up is harmless if the file is complete nevertheless
            same(ob, lab, b.getfile("a.nc"), b.getfile("b.nc"))
        else: ob.true(lab, False)

def same(ob, lab, x, y):
    ob.eq(lab + ": variables", sorted(x["vars"]), sorted(y["vars"]) if y else None)
    if not y: return
    ob.eq(lab + ": dimensions", sorted(x["dims"]), sorted(y["dims"]))
    for n, v in x["vars"].items():
        w = y["vars"].get(n)
        if w is None: continue
        ob.eq(lab + ": " + n, (v["type"], v["dims"], v["atts"], v["data"] is None), (w["type"], w["dims"], w["atts"], w["data"] is None))
        if v["data"] is not None and w["data"] is not None:
            if v["type"] == "d":
                for i, (p, q) in enumerate(zip(v["data"], w["data"])): ob.real("%s: %s[%d]" % (lab, n, i), p, q)
            else: ob.eq(lab + ": " + n, list(v["data"]), list(w["data"]))
