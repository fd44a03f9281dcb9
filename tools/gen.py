#!/usr/bin/env python3
"""Development helper: writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA, NOTES

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"], "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                          "evidence_file": "/verif/evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
for p in NA:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
