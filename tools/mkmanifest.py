#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties that have a check module"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
TECH_C = "solver-based: symbolic execution of the compiled IR of the real sources, obligations decided by z3"
TECH_P = "solver-based: symbolic execution of the real Python source with symbolic values, obligations decided by z3"
TECH = {"C15": TECH_P, "C18": TECH_P, "C19": TECH_P, "C20": TECH_P,
        "C05": TECH_C + " (conflicting accesses of iterations with symbolic owners)",
        "C13": TECH_C + " (every file operation fails by a symbolic choice)"}
NA = {}
NOTE = ("Bounded: every value of the symbolic inputs within the sizes listed in the evidence file (coverage.bounds); nothing is claimed outside them. "
        "Trusted: clang's IR, the executor and its models of libstdc++, netCDF and OpenMP entry points, z3; sample points of the explored paths are compared with the natively compiled code on every run. "
        "Floating-point numbers are exact reals, so rounding, overflow and NaN are outside.")
NOTE_P = ("Bounded as listed in the evidence file. Trusted: the shims for numpy/matplotlib/plotly used by the executor, z3; sample points are replayed under CPython with the real numpy and matplotlib. "
          "Floating-point numbers are exact reals.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (R, i.lower())):
        py = i in ("C15", "C18", "C19", "C20")
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, TECH_C), level="model_checking", level_note=NOTE_P if py else NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
