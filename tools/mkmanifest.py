#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, sys
sys.path.insert(0, "/verif")
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.NA:
        na.append({"property": i, "reason": props.NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "technique": "contract-based deductive verification of the Go code (contracts over its SSA, discharged by algebraic normalisation and z3), counterexamples replayed by a Go driver",
        "level": props.LEVEL.get(i, "proof"),
        "level_note": props.NOTE.get(i, "") + " " + props.NOTE_ALL,
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "fix commits in /repo are listed in known_findings.txt; there are no hooks"},
          open("/verif/MANIFEST.json", "w"), indent=1)
