from checks import scen
from checks.scen import Eq, modes, NAMES, q, perm, shape
from engine.backend import OUT_S, OUT_A, Arr

BOUNDS = "every list of surfaces of length 0..3 (any order, repetitions) out of 3 to 5 input surfaces, selected lists of up to 9 (thorough: 19) entries, some with 3 threads, every amplitude symbolic, mboz<=2, nboz<=1, symmetric and asymmetric"
OUTSIDE = "longer lists, rounding (amplitudes are exact reals)"
ASSUMPTIONS = ["floating-point values are treated as exact reals"]
NVAL = 16

def cases(tier, seed):
    c = []
    R = dict(modes=[[0, 0], [1, 0]], nyq=[[0, 0], [1, 0]], mboz=2, nboz=0, nfp=1)
    A = dict(modes=[[0, 0], [1, 2], [1, 0]], nyq=[[0, 0], [1, -2], [0, 2]], mboz=1, nboz=1, nfp=2)
    c.append(dict(R, asym=False, ns=3, n=0))
    for n in (1, 2): c.append(dict(R, asym=False, ns=4, n=n)); c.append(dict(A, asym=True, ns=3, n=n))
    for f in range(3): c.append(dict(R, asym=False, ns=3, n=3, first=f)); c.append(dict(R, asym=True, ns=3, n=3, first=f))
    c.append(dict(A, asym=False, ns=4, n=2)); 
    for f in (0, 4): c.append(dict(R, asym=False, ns=5, n=3, first=f, third=2)); c.append(dict(R, asym=True, ns=5, n=3, first=4 - f, second=3))
    # longer lists: descending, with repetitions, every surface, gaps; the position of one entry free
    T = dict(modes=[[0, 0]], nyq=[[0, 0], [1, 0]], mboz=1, nboz=0, nfp=1)
    L = [[5, 4, 3, 2, 1, 0], [1, 1, 0, 1], [2, 0, 2, 1, 0, 2, 1, 1], list(range(9)), [8, 0, 7, 1, 6, 2, 5, 3, 4]]
    if tier == "thorough": L += [list(range(17)), list(range(16, -1, -1)), [0] * 12, [3, 0] * 8, list(range(0, 33, 2)), [(7 * i) % 19 for i in range(19)]]
    for k, l in enumerate(L):
        c.append(dict(T, asym=bool(k % 2), ns=max(l) + 1 + k % 2, fix=l))
        if k in (0, 2) or tier == "thorough": c.append(dict(T, asym=not k % 2, ns=max(l) + 1, fix=l, threads=3))
    c.append(dict(R, asym=False, ns=5, fix=[4, None, 1, 3, 1]))
    c.append(dict(R, asym=True, ns=4, fix=[1, 3, None, 0]))
    if tier == "thorough":
        for f in range(4):
            c.append(dict(A, asym=True, ns=4, n=3, first=f, limit=900)); c.append(dict(A, asym=False, ns=4, n=3, first=f, limit=900))
            for g in range(4): c.append(dict(R, asym=False, ns=4, n=4, first=f, second=g, limit=900))
    return c

def scenario(b, ob, case):
    ml = [tuple(x) for x in case["modes"]]; ny = [tuple(x) for x in case["nyq"]]
    ns = case["ns"]
    eq = Eq(case["asym"], case["nfp"], ml, ny, ns_in=ns)
    surfs = []
    for i, s in enumerate(case.get("fix", ())): surfs.append(s if s is not None else b.choose("surf%d" % i, list(range(ns))))
    for i in range(case.get("n", 0)):
        fix = case.get(("first", "second", "third")[i]) if i < 3 else None
        surfs.append(fix if fix is not None else b.choose("surf%d" % i, list(range(ns))))
    D = scen.make_data(b, eq)
    o = b.new()
    scen.setup(b, o, eq, D, surfs, case["mboz"], case["nboz"], case.get("v", 0))
    T = case.get("threads", 1)
    if T > 1: b.threads(T, list(range(T)), [i * T // len(surfs) for i in range(len(surfs))])
    ob.eq("run() succeeds", b.run(o), 0)
    b.threads(1, None, None)
    r = scen.results(b, o)
    ob.eq("ns_b", r["ns_b"], len(surfs))
    ob.iarr("compute_surfs", b.get(o, "compute_surfs"), surfs)
    ob.arr("Boozer_G_all", r["Boozer_G_all"], [D["bsubvmnc"](0, j) for j in range(ns)])
    ob.arr("Boozer_I_all", r["Boozer_I_all"], [D["bsubumnc"](0, j) for j in range(ns)])
    ob.arr("s_b", r["s_b"], [D["s_in"][j] for j in surfs])
    ob.arr("Boozer_G", r["Boozer_G"], [D["bsubvmnc"](0, j) for j in surfs])
    ob.arr("Boozer_I", r["Boozer_I"], [D["bsubumnc"](0, j) for j in surfs])
    eq1 = Eq(case["asym"], case["nfp"], ml, ny, ns_in=1)
    done = {}
    for j, s in enumerate(surfs):
        if s not in done:
            one = {f: (Arr(a.rows, 1, a.a[s * a.rows:(s + 1) * a.rows]) if isinstance(a, Arr) else [a[s]]) for f, a in D.items()}
            o1 = b.new()
            scen.setup(b, o1, eq1, one, [0], case["mboz"], case["nboz"], 0)
            ob.eq("run() of one surface succeeds", b.run(o1), 0)
            done[s] = scen.results(b, o1)
        q1 = done[s]
        for f in OUT_S + (OUT_A if eq.asym else []):
            if not (r[f].cols == len(surfs) and r[f].rows == q1[f].rows):
                ob.eq(f + ".shape", r[f].shape(), (q1[f].rows, len(surfs))); continue
            for k in range(r[f].rows): ob.real("%s(%d,%d) surface %d" % (f, k, j, s), r[f](k, j), q1[f](k, 0), 0.1)
