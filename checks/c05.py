import itertools, os, z3
from checks import scen, base
from checks.scen import Eq
from engine.llvmir import OBJ

BUILDS = ["plain"]
NATIVES = ["plain", "tsan"]
VARIANTS = ["plain"]
BOUNDS = ("runs over 2..4 surfaces (repeated ones too) with up to 4 threads, every amplitude symbolic, symmetric and asymmetric, verbosity 0..3; race freedom: one iteration per thread, which covers every "
          "assignment of iterations to threads (owners are solver variables); results: all contiguous partitions and thread orders")
OUTSIDE = "more surfaces; code inside the OpenMP runtime and the C++ library; interleavings of the text of different threads"
ASSUMPTIONS = ["formatted output to std::cout is synchronised by the C++ library, its format flags are not",
               "the footprint of an iteration does not depend on what the other iterations compute (which holds if there is no race)"]
NVAL = 12
SH = [dict(nfp=2, modes=[[0, 0], [1, 0], [1, 2]], nyq=[[0, 0], [1, 2]], mboz=2, nboz=1),
      dict(nfp=1, modes=[[0, 0], [1, 0]], nyq=[[0, 0], [1, 0]], mboz=2, nboz=0),
      dict(nfp=3, modes=[[0, 0], [1, -3], [1, 3]], nyq=[[0, 0], [0, 3]], mboz=1, nboz=1)]

def cases(tier, seed):
    c = []
    for i, s in enumerate(SH):
        for asym in (0, 1):
            for v in (0, 1, 2, 3):
                for surfs in ([[2, 0, 1]] if tier == "quick" else [[0, 1, 2], [1, 1, 0], [3, 2, 1, 0], [0, 2]]):
                    c.append(dict(s, asym=asym, verbose=v, surfs=surfs, kind="race"))
            for part in range(4): c.append(dict(s, asym=asym, verbose=(i + asym) % 3, surfs=[2, 0, 1], kind="assign", threads=3, part=part))
            if tier == "thorough": c.append(dict(s, asym=asym, verbose=0, surfs=[2, 0, 2, 1], kind="assign", threads=4))
        c.append(dict(s, asym=i % 2, verbose=1, surfs=[1, 1, 0], kind="race"))
    return c

def partitions(n):
    """(threads, owner of every iteration, order of the threads)"""
    out = []
    for cut in itertools.product((0, 1), repeat=n - 1):
        own = [0]
        for x in cut: own.append(own[-1] + x)
        T = own[-1] + 1
        for o in itertools.permutations(range(T)): out.append((T, own, list(o)))
    out.append((n + 1, None, list(range(n, -1, -1))))
    return out

def mk(b, case, o):
    eq = Eq(bool(case["asym"]), case["nfp"], [tuple(x) for x in case["modes"]], [tuple(x) for x in case["nyq"]], ns_in=max(case["surfs"]) + 2)
    scen.setup(b, o, eq, scen.make_data(b, eq), case["surfs"], case["mboz"], case["nboz"], case["verbose"])

def scenario(b, ob, case):
    n = len(case["surfs"])
    o = b.new(); mk(b, case, o)
    if case["kind"] == "assign":
        b.threads(1)
        ob.eq("run", b.run(o), 0)
        want = scen.results(b, o)
        T, own, order = b.choose("assignment", partitions(n)[case["part"]::4] if "part" in case else partitions(n))
        p = b.new(); mk(b, case, p)
        b.threads(T, order, own)
        ob.eq("parallel run", b.run(p), 0)
        ob.same("with %d threads: " % T, scen.results(b, p), want)
        return
    b.threads(n, None, list(range(n)))
    rc, regions = b.accesses(lambda: b.run(o))
    ob.eq("run", rc, 0)
    for k, acc in enumerate(regions):
        ob.true("no two threads access the same memory in region %d" % k, z3.Not(race(b, acc, n)))

def merge(iv):
    iv = sorted(iv); out = []
    for a, e in iv:
        if out and a <= out[-1][1]: out[-1][1] = max(out[-1][1], e)
        else: out.append([a, e])
    return out

def race(b, acc, n):
    """there are iterations i, j of different threads and an address that both access, one of them writing, without a common lock in the same phase"""
    objs = {}
    for t, k, p, s, h, ph in acc: objs.setdefault(p >> OBJ, set()).add(t)
    groups = {}
    for t, k, p, s, h, ph in acc:
        if len(objs[p >> OBJ]) > 1: groups.setdefault((t, k, h, ph), []).append((p, p + s))
    a = z3.BitVec("address", 64); own = [z3.Int("owner%d" % i) for i in range(n)]
    ev = [(key, merge(iv)) for key, iv in groups.items()]
    inside = {key: z3.Or([z3.And(z3.UGE(a, x), z3.ULT(a, y)) for x, y in iv]) for key, iv in ev}
    cs = []
    for (t, k, h, ph), _ in ev:
        for (u, l, g, qh), _ in ev:
            if u <= t or ph != qh: continue
            if not ((k & 1) or (l & 1)) or (k >= 2 and l >= 2): continue
            if set(h) & set(g): continue
            cs.append(z3.And(own[t] != own[u], inside[(t, k, h, ph)], inside[(u, l, g, qh)]))
    return z3.Or(cs) if cs else z3.BoolVal(False)

def confirm(cand):
    """a race: the thread sanitizer sees it in the compiled code with one iteration per thread"""
    for order in ("asc", "desc", "free"):
        os.environ["VERIF_ORDER"] = order
        r = base.native_run("c05", cand["case"], cand["vals"], "tsan")
        if r["crash"]: return "the compiled code has a " + r["crash"]
        if r["fails"]: return "the compiled code gives %s = %s, required %s" % tuple(r["fails"][0])
    return None
