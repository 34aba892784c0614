#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist (check/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "check"))
import props
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
checks = []
for p in sorted(props.CHECKS):
    t, n = props.ABOUT[p]
    checks.append({"property": p, "quick_cmd": "python3 check/run.py %s quick" % p, "thorough_cmd": "python3 check/run.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 check/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in sorted(titles) if p not in props.CHECKS],
     "notes": "TLA+ specifications in spec/, checked with TLC; harness crates in harness/; see DESIGN.md. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
