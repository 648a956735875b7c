import itertools, z3
from checks import scen
from checks.scen import Eq
from checks.c13 import same

BUILDS = ["plain"]
NATIVES = ["mock"]
VARIANTS = ["mock"]
VARIANT = "mock"
BOUNDS = ("control files with every value of the resolution and of 0..3 (thorough: 4) surface numbers (symbolic 32-bit integers), lists of up to 20 (thorough: 70) numbers with one of them symbolic, in several layouts of white space, with signs and leading zeros, nine extensions (short, long, numbers), with and without a final line break, "
          "ended by nothing or by a token that is not an integer; every 32-bit default resolution; failing load, run or write; incomplete files; 0..3 arguments; "
          "complete runs against the same steps through the interface for small equilibria")
OUTSIDE = "numbers outside 32 bits; tokens that start with an integer but are none (3.5); longer lists"
ASSUMPTIONS = ["in the runs with arbitrary numbers, loading, running and writing are stand-ins that record what they are asked to do"]
NVAL = 40

# separators after mboz, nboz, extension, between the surfaces, and the end of the file
LAY = [(" ", "\n", "\n", " ", "\n"), (" ", "\n", "\n", " ", ""), ("\n", "\n", "\n\n", "\n", "\n\n"), ("\t", " ", " ", "  ", " "), ("   ", " \r\n", "\r\n", "\t", "\r\n"), (" ", " ", " ", "\n", "")]
EXT = ["some_ext.1", "7", "a.b-c.nc", "x", "L" * 150 + ".1.4m", "%s{0}#1", "wout_x", "3e2", "-4"]
ENDS = ["", "x", "none 7", "! 1 2", "- 3"]

def cases(tier, seed):
    c = []
    for n in range(4 if tier == "quick" else 5):
        for i in range(len(LAY)): c.append(dict(kind="list", n=n, lay=i, ndef=1 + (n + i) % 3, limit=300, nval=3))
    # long lists: every entry but one fixed
    for n in (6, 7, 12, 20) if tier == "quick" else (6, 7, 12, 20, 40, 70): c.append(dict(kind="list", n=n, sym=n // 2, lay=n % len(LAY), ndef=2, limit=300, nval=3))
    # numbers with a sign or with leading zeros
    for i, pad in enumerate(("%+d", "%03d", "%+04d", "%02d")): c.append(dict(kind="list", n=4, sym=i, pad=pad, res=[[12, 8], None, [10, 7], [64, 11]][i], lay=i, ndef=2, limit=300, nval=3))
    for i, x in enumerate(c): x["ext"] = EXT[i % len(EXT)]
    c.append(dict(kind="reject", nval=30)); c.append(dict(kind="args", nval=10)); c.append(dict(kind="fail", nval=10))
    for asym in (0, 1):
        c.append(dict(kind="real", asym=asym, ctl="7 0\nt\n1 0\n", mboz=7, nboz=0, surfs=[0, 1], ntor=0))
        c.append(dict(kind="real", asym=asym, ctl="2 1 t", mboz=6, nboz=1, surfs=None, ntor=0))
    return c

def smax(x, y): return z3.If(x > y, x, y) if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) else max(x, y)
def smin(x, y): return z3.If(x > y, y, x) if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) else min(x, y)
def ssort(l):
    l = list(l)
    for i in range(len(l)):
        for j in range(len(l) - 1 - i): l[j], l[j + 1] = smin(l[j], l[j + 1]), smax(l[j], l[j + 1])
    return l

class Rec:
    """records the operations of the program"""
    def __init__(self, b, ob, ndef, fail=None):
        self.b, self.ops, self.fail = b, [], fail
        self.mb, self.nb, self.ndef = b.integer("default mboz"), b.integer("default nboz"), ndef
        b.mock(self)
    def __call__(self, op, o, name):
        b = self.b
        # the stand-ins do not go through themselves
        if op == "read_wout":
            b.seti(o, "mboz", self.mb); b.seti(o, "nboz", self.nb)
            b.put(o, "compute_surfs", list(range(self.ndef)))
        st = dict(op=op, obj=o, name=name, mboz=b.geti(o, "mboz"), nboz=b.geti(o, "nboz"), surfs=list(b.get(o, "compute_surfs").a))
        self.ops.append(st)
        return self.fail == op

def drive(b, args): return b.code("h_driver", len(args), b.argv(args))

def scenario(b, ob, case):
    k = case["kind"]
    if k == "list":
        n = case["n"]; lay = LAY[case["lay"]]
        end = b.choose("end", ENDS if lay[4] or n == 0 else ENDS[:1])
        mb, nb = b.integer("mboz"), b.integer("nboz")
        if case.get("res"): mb, nb = case["res"]
        ss = [b.integer("surface%d" % i) if case.get("sym", i) == i else (i * 17 + 5) % 29 - 1 for i in range(n)]
        show = lambda x: case.get("pad", "%d") % x if type(x) is int else x
        items = [show(mb), lay[0], show(nb), lay[1] + case["ext"]]
        for i, s in enumerate(ss): items += [lay[2] if i == 0 else lay[3], show(s)]
        if end: items.append((lay[3] if n else lay[2]) + end)
        items.append(lay[4])
        b.settext("ctl", items)
        rec = Rec(b, ob, case["ndef"])
        ob.eq("the program succeeds", drive(b, ["xbooz_xform", "ctl"]), 0)
        ops = rec.ops
        ob.eq("operations", [x["op"] for x in ops], ["read_wout", "run", "write_boozmn"])
        if [x["op"] for x in ops] != ["read_wout", "run", "write_boozmn"]: return
        ob.eq("file names", [x["name"] for x in ops], ["wout_%s.nc" % case["ext"], "", "boozmn_%s.nc" % case["ext"]])
        ob.eq("one object", len(set(x["obj"] for x in ops)), 1)
        want = ssort(ss) if n else list(range(case["ndef"]))
        for x in ops[1:]:
            ob.eq("mboz at " + x["op"], x["mboz"], smax(mb, rec.mb)); ob.eq("nboz at " + x["op"], x["nboz"], smax(nb, rec.nb))
            ob.iarr("compute_surfs at " + x["op"], x["surfs"], want)
    elif k == "reject":
        texts = ["", "\n", "4", "4 ", "4 5", "4 5\n", "4 5 \n\n", "x 5 e\n", "4 x e\n", "x", "4 e\n1 2\n", "- 5 e\n", "4.5 3 e\n", None]
        t = b.choose("contents", texts)
        if t is not None: b.settext("ctl", [t])
        rec = Rec(b, ob, 2)
        r = drive(b, ["xbooz_xform", "ctl"])
        ob.true("%r is rejected" % t, r != 0)
        ob.eq("nothing is done for %r" % t, len(rec.ops), 0)
    elif k == "args":
        n = b.choose("arguments", [0, 2, 3])
        for f in ("ctl", "b", "c"): b.settext(f, ["4 3\ne\n1\n"])
        rec = Rec(b, ob, 2)
        b.printed()
        ob.eq("the program succeeds", drive(b, (["xbooz_xform", "ctl", "b", "c"])[:n + 1]), 0)
        ob.eq("nothing is done", len(rec.ops), 0)
        ob.eq("no file is opened", b.opened(), [])
        ob.true("the usage is printed", any("Usage:" in l for l in b.printed()))
    elif k == "fail":
        f = b.choose("failing", ["read_wout", "run", "write_boozmn"])
        b.settext("ctl", ["4 3\ne\n1\n"])
        rec = Rec(b, ob, 2, f)
        ob.true("a failing %s is reported" % f, drive(b, ["xbooz_xform", "ctl"]) != 0)
        allops = ["read_wout", "run", "write_boozmn"]
        ob.eq("operations up to the failing " + f, [x["op"] for x in rec.ops], allops[:allops.index(f) + 1])
    else:
        nt = case["ntor"]
        eq = Eq(bool(case["asym"]), 2, [(0, 0), (0, 2 * nt)] if nt else [(0, 0)], [(0, 0), (1, 2 * nt)], ntor=nt, mpol=1, ns_in=2)
        dims, V = scen.wout_vars(b, eq, 3, scen.vmec_data(b, eq, 3, True), b.real("aspect"))
        b.setfile("wout_t.nc", dims, V)
        b.settext("ctl", [case["ctl"]])
        ob.eq("the program succeeds", drive(b, ["xbooz_xform", "ctl"]), 0)
        o = b.new()
        b.seti(o, "verbose", 0)
        ob.eq("load", b.code("h_read_wout1", o, b.cstring("wout_t.nc")), 0)
        b.seti(o, "mboz", case["mboz"]); b.seti(o, "nboz", case["nboz"])
        if case["surfs"]: b.put(o, "compute_surfs", case["surfs"])
        ob.eq("run", b.run(o), 0)
        ob.eq("write", b.code("h_write_boozmn", o, b.cstring("ref.nc")), 0)
        f = b.getfile("boozmn_t.nc")
        ob.true("the result file exists", f is not None)
        if f: same(ob, "result file", f, b.getfile("ref.nc"))
