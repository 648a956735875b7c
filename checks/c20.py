"""C20: the curves of wireplot lie on the selected surface."""
import numpy
from .pyscen import *

PY = True
NVAL = 24
RTOL = 1e-9
BOUNDS = ("wireplot and handle_b_input are executed from the source with symbolic amplitudes; 1 to 3 output modes, one with symbolic numbers 1 <= m <= 2, n in {-nfp, 0, nfp}; 1 to 6 original modes, also with m = 0 and either sign of n, or none; whole tables of up to m = 6 or |n| = 4 nfp (thorough: 12, 8); "
          "1 to 3 output surfaces out of up to 4, each selected and none selected; both symmetries; nfp 1 to 5; 1 to 4 contours per angle, refinement 1 to 3; solid surface and original curves on and off; object and file name, also called before with other contents of the same object or file")
OUTSIDE = "larger tables; what plotly does with the data; points where the poloidal tangent vanishes"
ASSUMPTIONS = ["numpy does what its documentation says; plotly calls are recorded", "arithmetic over the reals"]

def cases(tier, seed):
    out = []
    for k, (asym, nfp) in enumerate([(0, 1), (1, 1), (0, 3), (1, 5)]):
        for surf in (0, 1):
            for js in (None, 0, 1):
                out.append(dict(nfp=nfp, asym=asym, ns=2, ns_in=4, surfs=[3, 1] if surf else [0, 2], js=js, nt=2, np=3 - surf, refine=1 + (k + surf) % 3, surf=surf, orig=int(js != 1 or k % 2),
                                modes=[(0, 0), "?", (2, -nfp)][: 2 + asym], om=[(0, 0), (1, 0), (1, nfp)][: 2 + surf]))
    out += [dict(nfp=2, asym=1, ns=3, js=2, nt=3, np=2, refine=2, surf=1, orig=1, modes=[(0, 0), "?"], om=None),                      # not available
            dict(nfp=2, asym=0, ns=1, js=None, nt=1, np=4, refine=2, surf=1, orig=1, modes=[(0, 0), (1, 0), (1, 2)], om="shape", file=1),
            dict(nfp=2, asym=1, ns=2, js=0, nt=2, np=2, refine=3, surf=0, orig=1, modes=[(0, 0), "?"], om="shape", file=1),
            dict(nfp=2, asym=0, ns=3, ns_in=3, surfs=[0, 1, 2], js=1, nt=4, np=1, refine=1, surf=1, orig=1, modes=[(0, 0), (1, 0)], om=[(0, 0), (1, 2)])]
    # original modes of every kind, also those with m = 0 and negative n
    for i, nfp in enumerate((1, 3)):
        for asym in (0, 1):
            out.append(dict(nfp=nfp, asym=asym, ns=2, ns_in=3, surfs=[2, 0], js=[None, 0][(i + asym) % 2], nt=2, np=3, refine=1 + i, surf=0, orig=1, modes=[(0, 0), (1, -nfp)], om=[(0, -nfp), (0, 0), (0, 2 * nfp), (1, -2 * nfp), (2, 0), (3, nfp)]))
    # again, after the file was rewritten or the object changed
    for i in range(4): out.append(dict(nfp=1 + i, asym=i // 2, ns=2, js=[None, 0][i % 2], nt=2, np=2, refine=2, surf=1, orig=1, modes=[(0, 0), (1, 1 + i)], om="shape" if i % 2 else [(0, 0), (1, 1 + i)], file=i % 2, again=1 + i // 2))
    # whole tables
    for asym in (0, 1):
        for i, (mm, nn, nfp) in enumerate(((4, 2, 2), (2, 4, 1), (6, 1, 3)) if tier == "quick" else ((6, 4, 2), (3, 8, 1), (12, 1, 3))):
            out.append(dict(nfp=nfp, asym=asym, ns=2, ns_in=3, surfs=[2, 0], js=[None, 0, 1][(i + asym) % 3], nt=3 - asym, np=3, refine=1 + asym, surf=i % 2, orig=1, modes=[], table=[mm, nn], om=[], otable=[mm - 1, nn - 1], limit=300))
    if tier == "thorough":
        for nfp in (1, 2, 3, 4, 7):
            for asym in (0, 1):
                for js in (None, 0, 1, 2):
                    for refine in (1, 2, 4):
                        out.append(dict(nfp=nfp, asym=asym, ns=3, ns_in=5, surfs=[4, 0, 2], js=js, nt=3, np=2 + nfp % 2, refine=refine, surf=refine % 2, orig=1, modes=[(0, 0), "?", (3, 2 * nfp)], om=[(0, 0), (1, 0), (2, -nfp)], limit=400))
    for c in out: c.setdefault("limit", 120)
    return out

def scenario(b, ob, case):
    nfp, asym = case["nfp"], case["asym"]
    modes = []
    for i, m in enumerate(case["modes"]):
        if m == "?": modes.append((b.integer("m%d" % i, 1, 2), b.choose("n%d" % i, [k * nfp for k in (-1, 0, 1)])))
        else: modes.append(tuple(m))
    if "table" in case: modes = table(*case["table"], nfp)
    avail = isinstance(case["om"], list)
    om = [tuple(x) for x in case["om"]] if avail else []
    if "otable" in case: om = table(*case["otable"], nfp)
    d = results(b, case, modes, orig=om)
    if case["om"] == "shape": d["mnmax"] = 3                            # the number of modes is known, their amplitudes are not
    ext, arg, o = make(b, case, d)
    lo, log, mod, exc = load(b, ext, "plots")
    ob.true("the module loads", exc is None, exc)
    if exc: return
    nt, np_, ref = case["nt"], case["np"], case["refine"]
    opt = dict(ntheta=nt, nphi=np_, refine=ref, surf=bool(case["surf"]), orig=bool(case["orig"]))
    if case["js"] is not None: opt["js"] = case["js"]
    exc = before(b, case, ext, arg, o, d, lo, log, mod.wireplot, opt)
    ob.true("wireplot returns with other contents", exc is None, exc)
    if exc: return
    r, exc = call(lo, mod.wireplot, arg, **opt)
    ob.true("wireplot returns", exc is None, exc)
    if exc: return
    if case.get("file"):
        ob.eq("the named file is read, once", [x[:2] for x in ext.log], [("read_boozmn", "boozmn_check.nc")])
        if not ext.log: return
        o = ext.log[0][2]
    js = case["ns"] - 1 if case["js"] is None else case["js"]
    figs = [c for c in log if c.name == "Figure"]
    ob.eq("figures", len(figs), 1)
    if len(figs) != 1: return
    ob.true("the figure is returned", r is figs[0].result)
    traces = list(figs[0].kw.get("data") or (figs[0].args[0] if figs[0].args else []) or [])
    for c in log:
        if c.name == "add_trace": traces.append(c.args[0] if c.args else c.kw["trace"])
        if c.name == "add_traces": traces += list(c.args[0] if c.args else c.kw["data"])
    traces = [t.__dict__["call"] for t in traces]
    solid = [t for t in traces if t.name != "Scatter3d"]
    curves = [t for t in traces if t.name == "Scatter3d"]
    ob.eq("solid surfaces", [t.name for t in solid], ["Surface"] if case["surf"] else [])
    # the surface itself
    tp = pi(b) * 2
    nth, nph = nt * ref + 1, np_ * ref + 1
    th, ph = linspace(b, b.const(0), tp, nth), linspace(b, b.const(0), tp, nph)
    col = lambda k: d[k + "_b"][:, js]
    X, Y, Z = ([[None] * nph for i in range(nth)] for k in range(3))
    sx, sy, sz = ([[None] * nph for i in range(nth)] for k in range(3))
    for i in range(nth):
        for j in range(nph):
            A = lambda c, s: series(b, modes, th[i], ph[j], c, s)
            Rr = A(col("rmnc"), col("rmns") if asym else None)
            Zz = A(col("zmnc") if asym else None, col("zmns"))
            nu = A(col("numnc") if asym else None, col("numns"))
            f = ph[j] - nu
            X[i][j], Y[i][j], Z[i][j] = Rr * cos(f), Rr * sin(f), Zz
            if case["surf"]:
                mm = [b.const(int(m)) for m, n in modes]
                mul = lambda v, s: [s * m * x for m, x in zip(mm, v)]
                dR = A(mul(col("rmns"), 1) if asym else None, mul(col("rmnc"), -1))
                dZ = A(mul(col("zmns"), 1), mul(col("zmnc"), -1) if asym else None)
                den = sqrt(dR * dR + dZ * dZ)
                eps = b.const(0.002)
                R2, Z2 = Rr - eps * (dZ / den), Zz + eps * (dR / den)
                sx[i][j], sy[i][j], sz[i][j] = R2 * cos(f), R2 * sin(f), Z2
    if case["surf"] and solid:
        for k, w in (("x", sx), ("y", sy), ("z", sz)):
            ob.true("solid surface is given " + k, k in solid[0].kw)
            if k in solid[0].kw: close(ob, b, "solid surface " + k, solid[0].kw[k], w)
    want = []
    def curves_of(kind, X, Y, Z):
        for i in range(nt + 1): want.append((kind + " theta", i, i == nt, X[i * ref], Y[i * ref], Z[i * ref]))
        tr = lambda A, j: [A[i][j] for i in range(nth)]
        for j in range(np_ + 1): want.append((kind + " phi", j, j == np_, tr(X, j * ref), tr(Y, j * ref), tr(Z, j * ref)))
    curves_of("Boozer", X, Y, Z)
    if case["orig"] and avail:
        jo = d["compute_surfs"][js]
        OX, OY, OZ = ([[None] * nph for i in range(nth)] for k in range(3))
        for i in range(nth):
            for j in range(nph):
                Rr = series(b, om, th[i], ph[j], d["rmnc"][:, jo], d["rmns"][:, jo] if asym else None)
                OZ[i][j] = series(b, om, th[i], ph[j], d["zmnc"][:, jo] if asym else None, d["zmns"][:, jo])
                OX[i][j], OY[i][j] = Rr * cos(ph[j]), Rr * sin(ph[j])
        curves_of("original", OX, OY, OZ)
    if b.symbolic: eqv = lambda x, y: b.node(x) is b.node(y)
    else: eqv = lambda x, y: abs(float(x) - float(y)) <= 1e-9
    def is_curve(t, w):
        for k, a in zip("xyz", w[3:]):
            g = list(t.kw.get(k, []))
            if len(g) != len(a) or not all(eqv(x, y) for x, y in zip(g, a)): return False
        return True
    got = []; left = []
    for t in curves:
        m = [w for w in want if is_curve(t, w)]
        # the curve at 2 pi may coincide with the one at 0
        m.sort(key=lambda w: any(w is g[1] for g in got))
        if m: got.append((t, m[0]))
        else: left.append(t)
    missing = [w for w in want if not w[2] and not any(w is g[1] for g in got)]
    # the first and the last curve of an angle may be the same
    missing = [w for w in missing if not any(g[1][0] == w[0] and g[1][2] and w[1] == 0 and is_curve(g[0], w) for g in got)]
    for t, w in zip(left, missing + [None] * len(left)):
        if w is None: ob.true("every curve drawn is one of the surface's", False); break
        for k, a in zip("xyz", w[3:]): close(ob, b, "%s = %d curve %s" % (w[0], w[1], k), list(t.kw.get(k, [])), a)
        got.append((t, w))
    ob.true("all the requested curves are drawn", len(missing) <= len(left), str([w[:2] for w in missing][:4]))
    n = {}
    for t, w in got: n[w[0]] = n.get(w[0], 0) + 1
    for kind in sorted(set(w[0] for w in want)):
        k = nt if kind.endswith("theta") else np_
        ob.true("number of curves, " + kind, k <= n.get(kind, 0) <= k + 1, n.get(kind, 0))
    cb = set(str((t.kw.get("line") or {}).get("color")) for t, w in got if w[0].startswith("Boozer"))
    co = set(str((t.kw.get("line") or {}).get("color")) for t, w in got if w[0].startswith("original"))
    ob.true("one colour for the Boozer curves", len(cb) == 1, str(cb))
    if co: ob.true("another colour for the original curves", len(co) == 1 and not (co & cb), str((cb, co)))
    unchanged(ob, b, "results ", o, d)
