#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=q.get("technique", plan.TECHNIQUE), level=q.get("level", "other"), level_note=q.get("note", plan.NOTE)))
na = [dict(property=i, reason=r) for i, r in plan.NOT_APPLICABLE.items()]
for p in props:
    if p["id"] not in plan.PLAN and p["id"] not in plan.NOT_APPLICABLE:
        na.append(dict(property=p["id"], reason="the check for it is not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="known findings: known_findings.txt"), open("/verif/MANIFEST.json", "w"), indent=1)
