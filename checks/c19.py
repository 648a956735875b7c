"""C19: symplot and modeplot draw the right modes with the right values, colours and labels."""
import itertools
import numpy
import z3
from .pyscen import *

PY = True
NVAL = 32
RTOL = 1e-9
BOUNDS = ("symplot, modeplot and handle_b_input are executed from the source; (0,0) and one to four further output modes with symbolic numbers 0 <= m <= 30, |n| <= 30 nfp and symbolic amplitudes on 1 to 3 surfaces; symbolic limits 0 <= max_m, max_n <= 30; "
          "nfp 1 to 5; any number of requested modes 0 to 6; whole tables of up to m = 22 or |n| = 22 nfp with fixed mode numbers (and, in modeplot, with all but one of the outermost amplitudes fixed); every combination of logarithmic axis, square root of the flux, (0,0) mode, helical detail; removed helicity none, (1,0), (1,+-nfp), (0,1), (2,nfp); object and file name, also called before with other contents of the same object or file")
OUTSIDE = "larger tables; what matplotlib does with the data; limits of the axes"
ASSUMPTIONS = ["numpy and matplotlib do what their documentation says; matplotlib calls are recorded", "arithmetic over the reals", "the mode numbers of a table are distinct"]

def cases(tier, seed):
    out = []
    hel = [None, (1, 0), (1, 1), (1, -1), (0, 1), (2, 1)]
    k = 0
    for log, sq, b0, det in itertools.product((0, 1), (0, 1), (0, 1), (0, 1)):
        for q in range(2):
            out.append(dict(f="sym", nfp=[1, 2, 3, 5][(k + q) % 4], ns=1 + k % 3, log=log, sqrts=sq, B0=b0, det=det, hel=hel[1 + (k * 2 + q) % 5] if q else None, file=(k + q) % 2, kw={"linewidth": 2} if k % 3 == 0 else {}, nm=2 if not q else 1))
        k += 1
    out.append(dict(f="sym", nfp=2, ns=2, default=1, nm=1))
    out.append(dict(f="sym", nfp=3, ns=2, default=1, nm=1, maxes=1))
    for log, sq, b0 in itertools.product((0, 1), (0, 1), (0, 1)):
        for q in range(2):
            out.append(dict(f="mode", nfp=[1, 2, 3, 5][(k + q) % 4], ns=1 + k % 2, log=log, sqrts=sq, B0=b0, hel=hel[1 + (k * 2 + q) % 5] if q else None, file=(k + q + 1) % 2, kw={"linewidth": 2} if k % 3 == 0 else {}, nm=3 - q, count=[0, 1, 2, 3, 4, 6][(k + 3 * q) % 6]))
        k += 1
    out.append(dict(f="mode", nfp=2, ns=2, default=1, nm=2, count=10))
    # again, after the file was rewritten or the object changed
    for i in range(4):
        for f in ("sym", "mode"): out.append(dict(f=f, nfp=1 + i, ns=1 + i % 2, log=i % 2, sqrts=i // 2, B0=1, det=i % 2, hel=None, kw={}, nm=1, count=2, file=i % 2, again=1 + i // 2))
    # whole tables; in modeplot the amplitudes on the last surface are fixed except for one
    big = ((5, 3), (3, 6)) if tier == "quick" else ((5, 3), (3, 6), (10, 4), (4, 12))
    for q, (mm, nn) in enumerate(big):
        for det in (0, 1):
            out.append(dict(f="sym", nfp=1 + 2 * q + det, ns=1 + det, log=q, sqrts=det, B0=1 - det * q, det=det, hel=hel[(q * 3 + det * 2 + 1) % 6] if det == q else None, file=0, kw={}, nm=0, table=[mm, nn], limit=200))
    out.append(dict(f="sym", nfp=2, ns=1, default=1, nm=0, table=[22, 1]))
    out.append(dict(f="sym", nfp=2, ns=1, default=1, nm=0, table=[1, 22]))
    for q, (mm, nn) in enumerate(((1, 1), (2, 1)) + big):
        for cnt in (3, 5, 10, 50) if q else (4, 5):
            out.append(dict(f="mode", nfp=1 + q, ns=1 + cnt % 2, log=q % 2, sqrts=cnt % 2, B0=int(cnt % 3 != 0), hel=hel[cnt % 6] if q % 2 else None, file=0, kw={}, nm=0, table=[mm, nn], count=cnt, limit=200))
    if tier == "thorough":
        for det, b0, log, nfp in itertools.product((0, 1), (0, 1), (0, 1), (1, 2, 3)):
            for h in hel: out.append(dict(f="sym", nfp=nfp, ns=2, log=log, sqrts=nfp % 2, B0=b0, det=det, hel=h, file=det, kw={}, nm=2, limit=600, max_paths=20000))
        for b0, log, cnt in itertools.product((0, 1), (0, 1), range(6)):
            for h in hel[: 3 if cnt % 2 else 6]: out.append(dict(f="mode", nfp=2 + cnt % 2, ns=2, log=log, sqrts=cnt % 2, B0=b0, hel=h, file=b0, kw={}, nm=3 + (h is None), count=cnt, limit=600, max_paths=20000))
    for c in out:
        c.setdefault("limit", 100)
        if c["hel" if "hel" in c else "f"] and c.get("hel"): c["hel"] = [c["hel"][0], c["hel"][1] * c["nfp"] if c["hel"][0] else c["hel"][1]]
    return out

def run(b, ob, mod, lo, log, arg, case, name, extra, ext=None, obj=None, d=None):
    opt = dict(case.get("kw", {}))
    if not case.get("default"):
        opt.update(log=bool(case["log"]), sqrts=bool(case["sqrts"]), B0=bool(case["B0"]))
        if case.get("hel"): opt["remove_helicity"] = tuple(case["hel"])
        if name == "symplot": opt["helical_detail"] = bool(case["det"])
    opt.update(extra)
    if ext is not None: exc = before(b, case, ext, arg, obj, d, lo, log, getattr(mod, name), opt)
    del log[:]
    r, exc = call(lo, getattr(mod, name), arg, **opt)
    ob.true(name + " returns", exc is None, exc)
    return exc is None

def drawn(b, ob, log, rad):
    """curves against the flux label; the reference line at zero is left out"""
    out = []
    for c in log:
        if c.name not in ("plot", "semilogy", "loglog", "semilogx", "scatter", "step"): continue
        if c.name in ("loglog", "semilogx", "scatter", "step"): ob.true("kind of curve", False, c.name)
        a = [x for x in c.args if not isinstance(x, str)]
        if len(a) < 2: ob.true("curves are drawn against the flux label", False); continue
        for j in range(0, len(a) - 1, 2):
            x, y = list(numpy.ravel(a[j])), list(numpy.ravel(a[j + 1]))
            if len(x) == 2 and all(isinstance(v, (int, float, numpy.number)) for v in x + y) and [float(v) for v in x + y] == [0, 1, 0, 0] and "label" not in c.kw: continue
            close(ob, b, "abscissa", x, list(rad))
            out.append((y, c))
    return out

def options(case):
    if case.get("default"): return dict(log=True, sqrts=False, B0=True, det=False, hel=None)
    return dict(log=bool(case["log"]), sqrts=bool(case["sqrts"]), B0=bool(case["B0"]), det=bool(case.get("det")), hel=case.get("hel"))

CLASSES = {"bg": "background", "qa": "quasiaxisymmetric", "mirror": "mirror", "hel": "helical", "plus": "helical", "minus": "helical", "other": "helical"}
def klass(m, n, nfp, det):
    if bool(n == 0): return "bg" if bool(m == 0) else "qa"
    if bool(m == 0): return "mirror"
    if not det: return "hel"
    return "plus" if bool(n == m * nfp) else "minus" if bool(n == m * -nfp) else "other"

def scenario(b, ob, case):
    nfp, ns = case["nfp"], case["ns"]
    o = options(case)
    modes = [(0, 0)]
    for i in range(1, case["nm"] + 1):
        modes.append((b.integer("m%d" % i, 0, 30), b.integer("k%d" % i, -30, 30) * nfp))
    if "table" in case: modes = table(*case["table"], nfp)
    if b.symbolic and "table" not in case:
        for i, j in itertools.combinations(range(len(modes)), 2):
            (p, q), (r, s) = modes[i], modes[j]
            b.S.assume(z3.Or(SInt.of(p) != SInt.of(r), SInt.of(q) != SInt.of(s)))
        # the tables list the mode (0,0) first; elsewhere the order is free
    d = results(b, dict(case, nfp=nfp), modes)
    if "table" in case and case["f"] == "mode":
        for i in range(len(modes)):
            if i != len(modes) // 2: d["bmnc_b"][i, -1] = b.const((-1) ** i * (1 + (i * 47) % 101) / 16)
    ext, arg, obj = make(b, case, d)
    lo, log, mod, exc = load(b, ext, "plots")
    ob.true("the module loads", exc is None, exc)
    if exc: return
    rad = [sqrt(x) if o["sqrts"] else x for x in d["s_b"]]
    def removed(m, n): return bool(o["hel"]) and bool(m * o["hel"][1] == n * o["hel"][0])
    def amplitude(D, i, m, n):
        if removed(m, n): return [b.const(0)] * ns
        return [abs(x) if o["log"] else x for x in D["bmnc_b"][i, :]]
    if b.symbolic: eqv = lambda x, y: b.node(x) is b.node(y)
    else: eqv = lambda x, y: abs(float(x) - float(y)) <= 1e-12
    same = lambda y, w: len(y) == len(w) and all(eqv(p, q) for p, q in zip(y, w))
    if case["f"] == "sym":
        # colours of the groups, from a table with one mode of each
        rm = [(0, 0), (1, 0), (0, nfp), (1, nfp), (1, -nfp), (2, nfp), (3, -nfp)]
        rd = results(b, dict(case, nfp=nfp), rm)
        rext, rarg, robj = make(b, dict(case, file=0), rd)
        colour = {}
        arg0 = ext.Booz_xform()
        for k, v in rd.items(): setattr(arg0, k, v)
        if not run(b, ob, mod, lo, log, arg0, dict(case, hel=None), "symplot", dict(B0=True) if not case.get("default") else {}): return
        ref = drawn(b, ob, log, rad)
        for y, c in ref:
            for i, (m, n) in enumerate(rm):
                w = [abs(x) if o["log"] else x for x in rd["bmnc_b"][i, :]]
                if same(y, w):
                    k = klass(m, n, nfp, o["det"])
                    ob.eq("one colour per group", str(colour.setdefault(k, c.kw.get("color", c.kw.get("c")))), str(c.kw.get("color", c.kw.get("c"))))
                    if c.kw.get("label"): ob.true("legend names the group " + k, CLASSES[k] in c.kw["label"].lower(), c.kw["label"])
                    break
            else: ob.true("a curve is one of the modes", False)
        ob.eq("all groups are drawn", sorted(colour), sorted(set(klass(m, n, nfp, o["det"]) for m, n in rm)))
        ob.true("colours tell the groups apart", len(set(map(str, colour.values()))) == len(colour) and None not in colour.values(), str(colour))
        extra = {}
        if not case.get("default") or case.get("maxes"): extra = dict(max_m=b.integer("max_m", 0, 30), max_n=b.integer("max_n", 0, 30))
        if not run(b, ob, mod, lo, log, arg, case, "symplot", extra, ext, obj, d): return
        mm, mx = extra.get("max_m", 20), extra.get("max_n", 20)
        allowed = [i for i, (m, n) in enumerate(modes) if bool(abs(m) <= mm) and bool(abs(n) <= mx * nfp) and (o["B0"] or not (bool(m == 0) and bool(n == 0)))]
        cl = {i: klass(m, n, nfp, o["det"]) for i, (m, n) in enumerate(modes)}
        want = {i: amplitude(d, i, *modes[i]) for i in range(len(modes))}
        got = drawn(b, ob, log, rad)
        seen = set(); zero = {}; named = set()
        inv = {str(v): k for k, v in colour.items()}
        zi = [i for i in allowed if removed(*modes[i])]
        for y, c in got:
            col = str(c.kw.get("color", c.kw.get("c")))
            hit = [i for i in allowed if same(y, want[i])]
            ok = [i for i in hit if str(colour.get(cl[i])) == col]
            if not hit:
                bad = [i for i in range(len(modes)) if same(y, want[i])]
                ob.true("every curve is a mode within the limits", False, "mode %s" % (modes[bad[0]],) if bad else "no mode"); continue
            if not ok: ob.true("colour of the group", False, "%s for mode %s" % (col, modes[hit[0]])); continue
            if c.kw.get("label"): named.add(inv[col])
            if c.kw.get("label"): ob.true("legend names the group", any(CLASSES[cl[i]] in c.kw["label"].lower() for i in ok), c.kw["label"])
            for i in ok:
                if i in zi: zero[cl[i]] = zero.get(cl[i], 0) + 1; break
                seen.add(i)
        for i in allowed:
            if i not in zi: ob.true("mode within the limits is drawn", i in seen, str(modes[i]))
        for k in set(cl[i] for i in allowed): ob.true("the legend has the group " + k, k in named)
        for k in set(cl[i] for i in zi): ob.true("removed helicity is drawn as zero", zero.get(k, 0) >= sum(1 for i in zi if cl[i] == k))
    else:
        if not run(b, ob, mod, lo, log, arg, case, "modeplot", dict() if case.get("default") else dict(nmodes=case["count"]), ext, obj, d): return
        avail = [i for i in range(len(modes)) if i or o["B0"]]
        want = {i: amplitude(d, i, *modes[i]) for i in avail}
        got = drawn(b, ob, log, rad)
        ob.eq("number of curves", len(got), min(case["count"], len(avail)))
        chosen = []
        for y, c in got:
            lab = c.kw.get("label", "")
            ps = [p for p in b.parts(str(lab)) if not isinstance(p, str)]
            def numeq(p, q):
                if b.symbolic: return z3.eq(z3.simplify(SInt.of(p)), z3.simplify(SInt.of(q)))
                return int(p) == int(q)
            ids = [i for i in avail if i not in chosen and len(ps) == 2 and all(not isinstance(p, (V, float)) for p in ps) and numeq(ps[0], modes[i][0]) and numeq(ps[1], modes[i][1])]
            if not ids: ob.true("label names a mode that is available", False, str(lab).encode("unicode_escape")); continue
            i = ids[0]
            chosen.append(i)
            close(ob, b, "curve of its mode", y, want[i])
        last = lambda i: abs(want[i][-1])
        for p, q in zip(chosen, chosen[1:]): ob.true("descending on the outermost surface", b.holds(last(p) >= last(q)))
        if chosen:
            for i in avail:
                if i not in chosen: ob.true("the largest are chosen", b.holds(last(chosen[-1]) >= last(i)))
    logs = [c for c in log if c.name == "semilogy" or c.name == "set_yscale" and (c.args + [c.kw.get("value")])[0] == "log"]
    ob.true("logarithmic axis exactly if requested", bool(logs) == o["log"])
    for y, c in got:
        for k, v in case.get("kw", {}).items(): ob.eq("extra options", c.kw.get(k), v)
    if case.get("file"):
        ob.eq("the named file is read, once", [x[:2] for x in ext.log], [("read_boozmn", "boozmn_check.nc")])
        if ext.log: obj = ext.log[0][2]
    if obj is not None: unchanged(ob, b, "results ", obj, d)
