"""python -m checks.run <property> quick|thorough    |    python -m checks.run replay <property> <file>"""
import json, os, sys, threading
def go():
    from checks import base
    if sys.argv[1] == "replay":
        import importlib
        from engine import build
        build.fill_lib()
        d = json.load(open(sys.argv[3])); m = sys.argv[2].lower()
        chk = importlib.import_module("checks." + m)
        if hasattr(chk, "replay"): return chk.replay(d)
        if getattr(chk, "PY", False): base.NATIVE["python"] = None
        else:
          for k in getattr(chk, "NATIVES", ["plain"]):
              base.NATIVE[k] = base.build_native(chk, k)
        d.setdefault("kind", "value")
        r = base.confirm(m, d)
        print(r or "not reproduced")
        return 1 if r else 0
    return base.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
if __name__ == "__main__":
    rc = go()
    sys.stdout.flush()
    sys.exit(rc)
