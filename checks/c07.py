import math
from checks import scen, spec
from checks.scen import Eq, modes, NAMES, q, shape, perm
from engine import rterm as R
from engine.backend import OUT_S, OUT_A

BOUNDS = ("every amplitude and profile value symbolic; accuracy table: 1..3 surfaces in any order, up to mboz=5 and nboz=2, nfp up to 10, symmetric and asymmetric, 1 and 2 threads; "
          "independence of the verbosity: levels 1, 2, 3 against 0 for import, reading and writing files and runs")
OUTSIDE = "the number of digits printed, negative verbosity, larger sizes; reconstructed or input |B| <= 0 (as maximum)"
ASSUMPTIONS = ["floating-point values are treated as exact reals"]
NVAL = 20

def cases(tier, seed):
    M = modes
    c = []
    T = [q(0, 2, M(2, 1, 2), perm(M(2, 1, 2)), 2, 1, surfs=[1, 0]),
         q(1, 3, M(2, 1, 3), M(2, 1, 3), 2, 1, surfs=[0]),
         q(0, 1, M(3, 0), M(3, 0), 3, 0, surfs=[2, 0, 1]),
         q(1, 1, M(2, 0), M(3, 0), 2, 0, surfs=[1, 1]),
         q(0, 5, M(1, 1, 5), M(2, 1, 5), 1, 2, surfs=[0]),
         q(1, 2, [[0, 0], [1, -2]], [[0, 0], [1, 2]], 1, 1, surfs=[2, 0]),
         q(0, 4, [[0, 0], [1, 4]], [[0, 0], [2, -4]], 3, 1, surfs=[0, 1], threads=2),
         q(0, 10, [[0, 0], [1, 10]], [[0, 0], [2, -10]], 2, 1, surfs=[1, 0]), q(1, 3, [[0, 0], [1, 3]], [[0, 0], [2, -3]], 5, 1, surfs=[1], limit=300)]
    if tier == "thorough":
        T += [q(1, 3, M(3, 1, 3), M(3, 1, 3), 3, 2, surfs=[0, 2], limit=900), q(0, 2, M(3, 2, 2), perm(M(3, 2, 2)), 4, 2, surfs=[1, 0], limit=900),
              q(0, 1, M(2, 1), M(2, 1), 2, 1, surfs=[0, 1, 2], threads=3), q(1, 1, M(4, 0), M(4, 0), 5, 0, surfs=[3, 1])]
    for i, t in enumerate(T): c.append(dict(t, kind="table", verbose=1 + i % 3, ns_in=max(t["surfs"]) + 1))
    for asym in (0, 1):
        for nfp, ml, ny, mb, nb in ((2, M(2, 1, 2), M(2, 1, 2), 2, 1), (1, M(2, 0), M(2, 0), 3, 0)):
            c.append(q(asym, nfp, ml, ny, mb, nb, kind="run", surfs=[1, 0, 2], ns_in=3))
    for asym in (0, 1):
        for flux in (0, 1):
            for k in ("import", "wout", "boozmn", "write"):
                c.append(q(asym, 2, [[0, 0], [1, -2], [1, 2]], [[0, 0], [1, 2]], 1, 1, kind=k, flux=flux, ns=3))
    return c

def rows(lines):
    """the accuracy table: [(thread, js_b, js, six values at zeta=0, six values at zeta=pi/nfp)]"""
    out = []
    num = lambda x: not isinstance(x, str)
    for i, l in enumerate(lines):
        if len(l) == 10 and l[3] in ("0", 0) and all(num(x) for x in l[:3] + l[4:]):
            nx = lines[i + 1] if i + 1 < len(lines) else []
            pi = nx[1:] if len(nx) == 7 and nx[0] == "pi" and all(num(x) for x in nx[1:]) else None
            out.append((l[0], l[1], l[2], l[4:], pi))
    return out

def scenario(b, ob, case):
    if case["kind"] == "table": return table(b, ob, case)
    levels = [1, 2, 3]
    eq = shape(b, case)
    def do(v, tag):
        """the operation at one verbosity; everything it leaves behind"""
        o = b.new()
        k = case["kind"]
        if k == "run":
            scen.setup(b, o, eq, scen.make_data(b, eq), case["surfs"], case["mboz"], case["nboz"], v)
            r = b.run(o)
        elif k == "import":
            b.seti(o, "verbose", v)
            scen.vmec_header(b, o, eq)
            r = scen.vmec_call(b, o, scen.vmec_data(b, eq, case["ns"], case["flux"]), case["ns"], case["flux"])
        elif k == "wout":
            b.seti(o, "verbose", v)
            dims, V = scen.wout_vars(b, eq, case["ns"], scen.vmec_data(b, eq, case["ns"], True), b.real("aspect"))
            b.setfile("w%s.nc" % tag, dims, V)
            r = b.code("h_read_wout", o, b.cstring("w%s.nc" % tag), case["flux"])
        else:
            dims, V = scen.boozmn_vars(b, eq.asym, eq.nfp, case["ns"], [1, 0], case["mboz"], case["nboz"])
            b.setfile("b%s.nc" % tag, dims, V)
            b.seti(o, "verbose", v if k == "boozmn" else 0)
            r = b.code("h_read_boozmn", o, b.cstring("b%s.nc" % tag))
            if k == "write":
                if not case["flux"]:
                    for f in ("phi", "phip", "chi", "pres"): b.put(o, f, [])
                b.seti(o, "verbose", v)
                r = b.code("h_write_boozmn", o, b.cstring("o%s.nc" % tag))
        ob.eq("verbosity %d: success" % v, r, 0)
        d = scen.inputs(b, o); d.update(scen.results(b, o))
        return d, b.getfile("o%s.nc" % tag) if k == "write" else None
    want, wf = do(0, "0")
    v = b.choose("verbosity", levels)
    got, gf = do(v, "v")
    ob.same("verbosity %d: " % v, got, want)
    if wf:
        from checks.c13 import same
        same(ob, "verbosity %d" % v, wf, gf)

def table(b, ob, case):
    eq = shape(b, case)
    mboz, nboz, surfs = case["mboz"], case["nboz"], case["surfs"]
    sd = scen.make_data(NAMES, eq)
    sp = {js: spec.Surface(eq, sd, js, mboz, nboz) for js in sorted(set(surfs))}
    for s in sp.values(): s.register(max(mboz, 2) + nboz + 2)
    o = b.new()
    scen.setup(b, o, eq, scen.make_data(b, eq), surfs, mboz, nboz, case["verbose"])
    T = case.get("threads", 1)
    own = [i * T // len(surfs) for i in range(len(surfs))]
    b.threads(T, list(range(T)) if T > 1 else None, own if T > 1 else None)
    b.printed()
    ob.eq("run() succeeds", b.run(o), 0)
    tab = rows(b.printed())
    ob.eq("number of rows", len(tab), len(surfs))
    by = {}
    for t, jb, js, z0, zp in tab:
        if type(t) is int and type(jb) is int: by.setdefault(jb, []).append((t, js, z0, zp))
    ml = spec.out_modes(mboz, nboz, eq.nfp)
    bc = b.get(o, "bmnc_b"); bs = b.get(o, "bmns_b") if eq.asym else None
    ob.eq("bmnc_b shape", bc.shape(), (len(ml), len(surfs)))
    if bc.shape() != (len(ml), len(surfs)) or (eq.asym and bs.shape() != bc.shape()): return
    val = (lambda t: R.norm(t)) if b.symbolic else (lambda t: ob.env.ev(R.norm(t)))
    def close(lab, got, want):
        if b.symbolic: ob.real(lab, got, want)
        else: ob.true(lab, abs(got - want) <= 6e-4 * abs(want) + 1e-10 or not math.isfinite(want), "%r, required %r" % (got, want))
    for j, js in enumerate(surfs):
        r = by.get(j, [])
        ob.eq("rows of js_b=%d" % j, len(r), 1)
        if len(r) != 1: continue
        t, pjs, z0, zp = r[0]
        ob.eq("js of js_b=%d" % j, pjs, js)
        ob.true("row for zeta=pi of js_b=%d" % j, zp is not None)
        if b.symbolic: ob.eq("thread of js_b=%d" % j, t, own[j])
        else: ob.true("thread of js_b=%d" % j, 0 <= t < max(T, 2))
        s = sp[js]; pts = s.grid()
        for name, jt, jz, vals in (("(0,0)", 0, 0, z0[:3]), ("(pi,0)", s.ntheta // 2, 0, z0[3:]),
                                   ("(0,pi/nfp)", 0, s.nzeta // 2, zp[:3] if zp else None), ("(pi,pi/nfp)", s.ntheta // 2, s.nzeta // 2, zp[3:] if zp else None)):
            if not vals: continue
            p = pts[jt * s.nzeta + jz]
            rec = R.ZERO if b.symbolic else 0.0
            for k, (m, n) in enumerate(ml):
                c, sn = s.trig(p, m, n)
                c, sn = val(c), val(sn)
                if b.symbolic:
                    rec = R.add(rec, R.mul(c, R.lift(bc(k, j))))
                    if eq.asym: rec = R.add(rec, R.mul(sn, R.lift(bs(k, j))))
                else: rec += c * bc(k, j) + (sn * bs(k, j) if eq.asym else 0.0)
            inp = val(p.b)
            lab = "js_b=%d at %s" % (j, name)
            close("input |B| of " + lab, vals[0], inp)
            close("reconstructed |B| of " + lab, vals[1], rec)
            if not b.symbolic: 
                close("error of " + lab, vals[2], abs(rec - inp) / max(rec, inp)); continue
            # |difference| / max, in any of the equivalent ways of writing the maximum
            x, y = R.lift(vals[1]), R.lift(vals[0])
            if x.__class__ is not R.N: continue
            d = R.fabs(R.sub(x, y))
            forms = [R.div(d, R.ite(R.cmp(o1, u, w), v1, v2)) for u, w in ((x, y), (y, x)) for o1 in ("lt", "le", "gt", "ge")
                     for v1, v2 in ((w, u) if o1[0] == "l" else (u, w),)]
            ob.real("error of " + lab, vals[2], next((f for f in forms if R.norm(f) is R.norm(R.lift(vals[2]))), forms[0]))
