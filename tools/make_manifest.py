#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "claims.py")).read(), ns)
checks = []
for prop, (technique, note) in ns["CLAIMS"].items():
    checks.append({"property": prop, "quick_cmd": f"./check {prop} quick", "thorough_cmd": f"./check {prop} thorough",
                   "evidence_file": f"evidence/{prop}.json", "technique": technique, "level": "model_checking",
                   "level_note": note})
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": ns["NOT_YET"].get(p, "no check registered yet")} for p in allp if p not in ns["CLAIMS"]]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC (see DESIGN.md). Each check builds its driver from /repo's current tree, offline."}
if ns.get("HOOKS"):
    m["hooks"] = ns["HOOKS"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
