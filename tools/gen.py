#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE

props = open(os.path.join(HERE, "properties.jsonl"), "w")
checks, na = [], []
for p in PROPS:
    props.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    cmd = "./check.sh " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough",
                   "technique": "deterministic simulation with fault injection: " + p["how"],
                   "level": "exploration", "level_note": p["note"]})
props.close()
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B sim/driver.py build",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are existing ones (caller-supplied comparators, "
              "visitors and elements, the _thread module, the random module, class constructors, malloc, "
              "PYTHONHASHSEED). One driver, sim/driver.py; 'driver.py replay FILE' re-executes a "
              "replay file, 'driver.py selftest' proves determinism."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
