#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plan
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    c = plan.PROPS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": plan.NOT_APPLICABLE.get(p["id"], "no check yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']}",
                   "technique": c.get("technique", plan.TECHNIQUE), "level": c["level"], "level_note": c.get("note", plan.NOTE)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, harness against the real code in harness/, see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
