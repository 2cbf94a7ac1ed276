#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, the claims, the known findings and the planted bugs."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "..")
exec(open(os.path.join(H, "claims.py")).read())
t = open(os.path.join(H, "design.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
tab = []
for p in props:
    i = p["id"]
    tab.append("### %s - %s\n" % (i, p["title"]))
    if i in CLAIMS:
        tab.append("*Decided by* %s.\n\n%s\n" % CLAIMS[i])
        if i in DETAIL: tab.append(DETAIL[i] + "\n")
    else:
        tab.append("*Not claimed:* %s\n" % NOT.get(i, "not built yet."))
k = json.load(open(os.path.join(V, "known_findings.json")))
f = ["* " + x for x in k["fixed"]] + ["* recorded, not repaired: property=%s %s" % (x["property"], x["what"]) for x in k["findings"]]
s = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(V, "tools", "seed_results.json"))) if os.path.exists(os.path.join(V, "tools", "seed_results.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    s.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(tab)).replace("@@FINDINGS@@", "\n".join(f)).replace("@@SEEDS@@", "\n".join(s)))
