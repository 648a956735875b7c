"""C15: the Python command runs exactly the requested transformation."""
import itertools, os, sys, tempfile
import numpy
import z3
from .pyscen import *
from engine import build

PY = True
NVAL = 32
BOUNDS = ("_cli.py is executed from the source on control files whose integers are symbolic (resolution -50 to 500, up to 5 surface numbers -5 to 40; lists of up to 17 (thorough: 50) numbers with one of them symbolic) and on symbolic defaults of the loaded equilibrium; "
          "twelve layouts of white space, numbers with signs and leading zeros, eleven extensions, thirteen tokens that end the list; files with 0 to 2 tokens and with tokens that are no integers in place of the resolution; unusual names of the control file; argument lists with 0 to 3 entries, given or taken from the command line")
OUTSIDE = "longer lists; digit strings Python reads as integers and C++ does not (underscores, other scripts); what the three operations do (other properties)"
ASSUMPTIONS = ["the operations of the extension module are recorded"]
SEPS = [(" ", "\n", "\n", " ", "\n"), (" ", "\n", "\n", " ", ""), ("\n", "\n", "\n", "\n", "\n"), (" ", " ", " ", " ", " "), ("\t", "\n", "\n", "\t", "\t\n"), (" ", "\r\n", "\r\n", " ", "\r\n"),
        ("  \n ", "\n\n\n", "\n \n", "\n   ", "\n\n"), (" ", "\n", "\n", "\n", "\n"), (" ", " ", "\n", "\t \n", ""), ("\n\n", " ", " ", "\r\n", " "), (" ", "\x0b\n", "\x0c\n", " ", "\n"), (" ", "\n", "  \t", " ", "\n")]
EXT = ["li383_1.4m", "x", "L" * 150 + ".1", "%s{0}#1", "-4", "a-b.c", "7", "in_booz.w7x", "vmec.nc", "wout_", "1.5"]
ENDS = [None, "stop", "1.5", "-", "4x", "!", "0x3", "nan", "#", "#7", "//", "surfaces:", ",", "--"]

# names of control files
NAMES_ = ["in_booz", "-x", "--help", "-", "with space", "a.txt", "3", "#1", "*"]

def cases(tier, seed):
    out = []
    k = 0
    for n in range(6 if tier == "thorough" else 5):
        for end in ENDS:
            if tier == "quick" and n == 4 and ENDS.index(end) % 4: k += 1; continue
            for lay in range(len(SEPS)) if tier == "thorough" else [(k * 5 + n) % len(SEPS)] + ([k % len(SEPS)] if n < 3 else []):
                out.append(dict(f="run", n=n, end=end, after=n % 2 if end else 0, lay=lay, lead=["", " ", "\n"][k % 3], ext=EXT[k % len(EXT)], argv=k % 2, nd=k % 3, limit=100 if n < 5 else 400, max_paths=20000))
                k += 1
    # numbers with a sign or with leading zeros
    for i, pad in enumerate(("%+d", "%03d", "%+04d", "%02d")): out.append(dict(f="run", n=4, sym=1 + i % 3, pad=pad, end=[None, "stop"][i % 2], after=0, lay=i, lead="", ext="test", argv=i % 2, nd=2, limit=100))
    for t in ("", "\n", "12", "12 8", "12\n8\n", " 3 ", "12 8\n \n"): out.append(dict(f="short", text=t, argv=len(t) % 2, limit=60))
    for t in ("a 8\next\n", "12 b\next\n3 4", "ext\n1 2 3\n", "1.5 2 ext", "12 2.0 ext\n1"): out.append(dict(f="short", text=t, argv=len(t) % 2, limit=60))
    out.append(dict(f="short", text=None, argv=0, limit=60))
    # long lists: every entry but one fixed
    for n in (7, 12, 17) if tier == "quick" else (7, 12, 21, 32, 50): out.append(dict(f="run", n=n, sym=n // 2, end=[None, "stop", None][n % 3], after=0, lay=n % len(SEPS), lead="", ext="long", argv=n % 2, limit=100 if n < 20 else 800))
    for nm in NAMES_:
        for argv in (0, 1): out.append(dict(f="name", name=nm, argv=argv, n=1, end=None, after=0, lay=0, lead="", ext="test", limit=60))
    for a in (0, 2, 3):
        for argv in (0, 1): out.append(dict(f="usage", a=a, argv=argv, limit=60))
    return out

def scenario(b, ob, case):
    events = []
    class Booz_xform:
        def __init__(self, *a, **k):
            self.mboz, self.nboz = b.integer("mboz at first", -50, 500), b.integer("nboz at first", -50, 500)
            self.compute_surfs = [b.integer("surface at first", -5, 40)]
            self.verbose = 1
        def read_wout(self, filename, flux=False):
            events.append(("read_wout", filename, bool(flux)))
            self.mboz, self.nboz = b.integer("default mboz", -50, 500), b.integer("default nboz", -50, 500)
            self.compute_surfs = dflt()
        def run(self): events.append(("run", self.mboz, self.nboz, list(self.compute_surfs)))
        def write_boozmn(self, filename): events.append(("write_boozmn", filename))
    def dflt(): return [b.integer("default surface %d" % i, -5, 40) for i in range(case.get("nd", 2))]
    ext = types.SimpleNamespace(Booz_xform=Booz_xform, __version__="0")
    work = tempfile.mkdtemp(dir=build.tmp())
    name = work + "/in_booz.check"
    home = os.getcwd()
    if case["f"] == "name":
        name = case["name"]; os.chdir(work)
    req = None
    if case["f"] in ("run", "name"):
        mb, nb = b.integer("mboz", -50, 500), b.integer("nboz", -50, 500)
        fx = lambda i: (i * 17 + 5) % 29 - 1
        js = [b.integer("js%d" % i, -5, 40) if case.get("sym", i) == i else fx(i) for i in range(case["n"])]
        s = SEPS[case["lay"]]
        items = [case["lead"], mb, s[0], nb, s[1], case["ext"]]
        for i, j in enumerate(js): items += [s[2] if i == 0 else s[3], j if type(j) is not int or "pad" not in case else case["pad"] % j]
        if case["end"]: items += [s[2] if not js else s[3], case["end"]]
        if case["after"]: items += [s[3], b.integer("js after", -5, 40)]
        items.append(s[4])
        items = [x if isinstance(x, str) or type(x) is SInt else str(x) for x in items]
        files = {name: b.text(items)}
    elif case["f"] == "short": files = {name: case["text"]} if case["text"] is not None else {}
    else: files = {name: "12 8\ntest\n"}
    for k, v in files.items():
        with open(k, "w", newline="") as f: f.write(v)
    lo, log, mod, exc = load(b, ext, "_cli")
    ob.true("the module loads", exc is None, exc)
    if exc: return
    argv = [name] if case["f"] != "usage" else [name] * case["a"]
    old = sys.argv
    try:
        sys.argv = ["xbooz_xform"] + (argv if case["argv"] else ["other", "arguments"])
        try: r, exc = call(lo, mod.main) if case["argv"] else call(lo, mod.main, argv)
        except SystemExit as e: r, exc = e.code, None
    finally: sys.argv = old; os.chdir(home)
    if case["f"] == "usage":
        ob.true("main returns", exc is None, exc)
        ob.eq("nothing is run", [e[0] for e in events], [])
        t = lo.stdout.getvalue().strip()
        ob.true("only the usage text is printed", t.startswith("Usage") and "<compute_surfs>" in t and t == getattr(mod, "USAGE", t).strip(), t[:80])
        return
    if case["f"] == "short":
        ob.true("the file is rejected", exc is not None or r not in (None, 0))
        ob.eq("nothing is run", [e[0] for e in events], [])
        return
    ob.true("main succeeds", exc is None and r in (None, 0), exc or r)
    ob.eq("operations, in order", [e[0] for e in events], ["read_wout", "run", "write_boozmn"])
    if [e[0] for e in events] != ["read_wout", "run", "write_boozmn"]: return
    ob.eq("equilibrium file", events[0][1:], ("wout_%s.nc" % case["ext"], False))
    ob.eq("result file", events[2][1], "boozmn_%s.nc" % case["ext"])
    _, m, n, got = events[1]
    def mx(x, y): return SInt(z3.If(SInt.of(x) >= SInt.of(y), SInt.of(x), SInt.of(y))) if b.symbolic else max(x, y)
    def mn(x, y): return SInt(z3.If(SInt.of(x) >= SInt.of(y), SInt.of(y), SInt.of(x))) if b.symbolic else min(x, y)
    def equal(lab, x, y): ob.true(lab, b.holds(x == y), "%s want %s" % (x, y) if not b.symbolic else None)
    equal("poloidal resolution", m, mx(b.integer("default mboz", -50, 500), mb))
    equal("toroidal resolution", n, mx(b.integer("default nboz", -50, 500), nb))
    want = list(js)
    for i in range(len(want)):
        for j in range(len(want) - 1 - i): want[j], want[j + 1] = mn(want[j], want[j + 1]), mx(want[j], want[j + 1])
    if not js: want = dflt()
    ob.eq("number of surfaces", len(got), len(want))
    if len(got) == len(want):
        for i, (x, y) in enumerate(zip(got, want)): equal("surface %d" % i, x, y)
