#!/usr/bin/env python3
"""writes DESIGN.md from the parts kept beside it"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tool")
tech = json.load(open(T + "/techniques.json"))
na = json.load(open(T + "/not_applicable.json"))
plan = json.load(open(T + "/plan.json")) if os.path.exists(T + "/plan.json") else {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = [open(T + "/design_intro.md").read(), "## Properties decided\n"]
for p in props:
    if p["id"] in tech:
        o.append(f"- **{p['id']} {p['title']}** — *{tech[p['id']][0]}*. {tech[p['id']][1]}" + (" " + plan[p["id"]] if p["id"] in plan else ""))
o.append("\n## Properties not claimed\n")
for p in props:
    if p["id"] not in tech:
        o.append(f"- **{p['id']} {p['title']}** — {na.get(p['id'], 'no check built yet')}")
o.append("\n## Findings in the unchanged code\n")
o.append("Repaired (one `fix:` commit each) or recorded in `known_findings.txt`:\n")
for l in open(V + "/known_findings.txt"):
    if l.startswith(("known:", "fixed:")):
        o.append("- " + l.strip())
if os.path.exists(T + "/design_findings.md"):
    o.append(open(T + "/design_findings.md").read())
o.append("\n## Planted bugs and what catches them\n")
res = json.load(open(T + "/seedresults.json")) if os.path.exists(T + "/seedresults.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    mf = f"{V}/seeded/{s}/meta.json"
    if os.path.exists(mf):
        m = json.load(open(mf))
        o.append(f"- `{s}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. {res.get(s, 'not yet recorded')}")
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
