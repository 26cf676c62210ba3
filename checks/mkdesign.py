#!/usr/bin/env python3
"""DESIGN.md = design_head.md + per-property table from gen's data + design_tail.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pr = json.load(open(V + "/checks/props.json")); st = {}
for l in open(V + "/properties.jsonl"):
    j = json.loads(l); st[j["id"]] = j
base = json.load(open(V + "/checks/baseline.json"))
how = {}
for b in open(V + "/checks/design_props.md").read().split("\n## ")[1:]:
    h, t = b.split("\n", 1); how[h.strip()] = t.strip()
o = [open(V + "/checks/design_head.md").read(), "## The properties\n"]
for k, x in pr.items():
    miss = [f for f in x["fns"] if f not in base]
    o.append("### %s %s — %s\n\n%s\n" % (k, x["title"], x["level"], how.get(k, "")))
    if x["fns"]:
        o.append("Under contract: %d of %d functions of the cone%s.\n" % (len(x["fns"]) - len(miss), len(x["fns"]), "; missing: " + ", ".join("`%s`" % m.split("::", 1)[1] for m in miss) if miss else ""))
rows = ["| planted bug | property | caught by |", "|---|---|---|"]
caught = json.load(open(V + "/checks/caught.json"))
for k in sorted(caught):
    rows.append("| %s | %s | %s |" % (k, *caught[k]))
o.append(open(V + "/checks/design_tail.md").read().replace("@@TABLE@@", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("\n".join(o))
