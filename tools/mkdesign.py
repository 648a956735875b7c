"""Writes DESIGN.md from tools/design_head.md, the property table below, the checks' bounds, seeded/ and tools/design_tail.md."""
import sys, os, json, glob, importlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
head = open(R + "/tools/design_head.md").read()
tail = open(R + "/tools/design_tail.md").read()
how = {}
cur = None
for l in open(R + "/tools/design_props.md"):
    if l.startswith("## "): cur = l[3:].strip(); how[cur] = ""
    elif cur: how[cur] += l
out = [head.rstrip(), ""]
for l in open(R + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    c = importlib.import_module("checks." + i.lower())
    out += ["### %s %s" % (i, d["title"]), "", how[i].strip(), "", "*Bounds:* %s." % c.BOUNDS.strip().rstrip("."), "*Outside:* %s." % getattr(c, "OUTSIDE", "-").strip().rstrip(".")]
    a = [x for x in getattr(c, "ASSUMPTIONS", []) if x]
    if a: out.append("*Assumed:* %s." % "; ".join(a))
    out.append("")
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(R + "/tools/caught.json"))
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = f.split("/")[-2]
    rows.append("| `%s` | %s | %s | %s |" % (n, d["needs"].replace("|", "\\|"), d["what_it_breaks"].replace("|", "\\|")[:200], caught.get(n, d["property"])))
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail.replace("@SEEDS@", "\n".join(rows)))
