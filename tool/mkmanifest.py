#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present in sa/props"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tool", "techniques.json")))
NA = json.load(open(os.path.join(V, "tool", "not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "props", i + ".py")) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=TECH[i][0], level="other", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash tool/build.sh", checks=checks, not_applicable=na,
         notes="All checks are static: a libTooling extractor (tool/l2facts.cpp) dumps the resolved program of /repo's current "
               "sources (typed trees, control flow graphs, call targets) and the rules in sa/props decide the obligations on it. "
               "No hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
