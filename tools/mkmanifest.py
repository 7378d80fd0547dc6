#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the monitor implements."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTES = json.load(open(root + "/tools/notes.json"))
checks = []
for p in props:
    n = NOTES.get(p["id"])
    if not n: continue
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick",
                   "thorough_cmd": f"./check {p['id']} thorough",
                   "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
done = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in done]
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "All checks are runtime monitors over the unmodified public API (no hooks in /repo); see DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "not claimed")
