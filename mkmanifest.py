#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from jobs import PROPS, LEVELS, TECH
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in ids:
    if p not in PROPS: continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH[p][0], "level": LEVELS.get(p, "exploration"), "level_note": TECH[p][1]})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
     "notes": "No hooks in /repo: all monitors use the public API with instrumented element, allocator, hash, comparison and mutex types. Known findings and fixed defects: known-findings.json."}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
