#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    c = CHECKS.get(d["id"])
    if c is None:
        na.append({"property": d["id"], "reason": NA.get(d["id"], "No check built yet.")})
        continue
    checks.append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                   "evidence_file": "evidence/%s.json" % d["id"],
                   "technique": c.get("technique", "runtime monitoring: oracle over instrumented executions of the real code"),
                   "level": c["level"], "level_note": c.get("note", "Holds on every generated execution; nothing is claimed beyond the workloads described in the evidence.")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
