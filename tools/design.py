"""rewrites the table of DESIGN.md from tools/design_rows.py, properties.jsonl and evidence/"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from design_rows import ROWS
T = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(V, "properties.jsonl"))}
out = ["| id | property | how decided | bounds | obligations | s |", "|---|---|---|---|---|---|"]
for k, (how, b) in ROWS.items():
    try:
        d = json.load(open(os.path.join(V, "evidence", k + ".json")))
        n, s = d["coverage"]["obligations"], "%.0f" % max(1, d["wall_s"])
    except OSError:
        n = s = "?"
    out.append("| %s | %s | %s | %s | %s | %s |" % (k, T[k], how, b, n, s))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
a, b = "<!-- table -->", "<!-- /table -->"
i, j = t.index(a), t.index(b)
open(p, "w").write(t[:i + len(a)] + "\n" + "\n".join(out) + "\n" + t[j:])
t = open(p).read()
rows = ["| seed | check | needs |", "|---|---|---|"]
sd = os.path.join(V, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    rows.append("| %s | %s | %s |" % (n, m["property"], m["needs"]))
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = t.index(a), t.index(b)
open(p, "w").write(t[:i + len(a)] + "\n" + "\n".join(rows) + "\n" + t[j:])
