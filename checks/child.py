"""native execution of one case: python -m checks.child in.json out.json"""
import importlib, json, os, sys
sys.path += [p for p in os.environ.get("VERIF_SITE", "").split(os.pathsep) if p and p not in sys.path]
sys.setrecursionlimit(100000)
def main():
    spec = json.load(open(sys.argv[1]))
    so = os.dup(1)
    fd = os.open("stdout.txt", os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    os.dup2(fd, 1)
    from engine import backend, rterm as R
    from checks import base
    chk = importlib.import_module("checks." + spec["module"])
    if getattr(chk, "PY", False):
        from engine import pysym
        b = pysym.PyNative(spec["vals"])
    elif spec["so"].endswith("_booz_xform.so"):
        from engine import pyobj
        b = pyobj.Native(spec["so"], spec["vals"])
    else: b = backend.Native(spec["so"], spec["vals"])
    ob = base.Ob(native=True, rtol=getattr(chk, "RTOL", 1e-10))
    ob.env = R.Env(0)
    ob.env.vals = b.vals.setdefault("r", {})
    ob.env.draw = lambda name, rng: b.real(name)
    out = {}
    try:
        try: chk.scenario(b, ob, spec["case"])
        except base.SCRIPT:
            if not ob.fails: raise
        out = dict(fails=ob.fails, count=ob.count, info=ob.info)
    except backend.NotNative as e:
        out = dict(fails=[], count=0, unsupported=str(e))
    with open(sys.argv[2], "w") as f: json.dump(out, f, default=str)
    os._exit(0)
main()
