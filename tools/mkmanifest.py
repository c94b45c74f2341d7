#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        q = PLAN[i]
        mods = ", ".join(dict.fromkeys(s.module for s in q["stages"] if hasattr(s, "module")))
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC (%s); its behaviours replayed on the real code and every recorded event compared with the specification" % mods,
            "level": "model_checking",
            "level_note": q.get("note", "Exhaustive for the model within the stated constants; the code is bound by validating every recorded call (all replayed model transitions plus seeded random histories), so a deviation is found only on calls that were executed.")})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none (all observations go through the public API)", "enable": "not needed", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. All checks are TLA+/TLC specifications bound to the code by trace validation."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks), "checks,", len(na), "not claimed")
