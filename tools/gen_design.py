#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the last evidence and the planted bugs: python3 tools/gen_design.py"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(V, "tools", n)).read()
STRENGTHENED = set(rd("strengthened.txt").split())
out = rd("design_head.md") + "\n" + rd("design_props.md") + "\n"
out += "## Cost (quick tier, 8 cores, last recorded run)\n\n| property | executions (states) | steps and comparisons | seconds |\n|---|---|---|---|\n"
COST = os.path.join(V, "tools", "cost.json")
cost = json.load(open(COST)) if os.path.exists(COST) else {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    e = json.load(open(f))
    if e.get("tier", "quick") == "quick":
        cost[e["property_id"] if "property_id" in e else os.path.basename(f)[:3]] = [e["coverage"]["states"], e["coverage"]["transitions"], round(e["wall_s"])]
json.dump(cost, open(COST, "w"), indent=0, sort_keys=True)
for k in sorted(cost):
    out += "| %s | %d | %d | %d |\n" % tuple([k] + cost[k])
out += "\n" + rd("design_tail.md") + "| id | property | breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out += "| %s%s | %s | %s | %s |\n" % (i, " (strengthened)" if i in STRENGTHENED else "", m["property"], cell(m["what_it_breaks"]), cell(m["needs"]))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
