#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/stages.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stages
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Specifications in spec/ (TLA+, checked with TLC); harness/ drives the real code; tools/check.py joins them. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in stages.PROPERTIES:
        s = stages.PROPERTIES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "technique": s["technique"], "level": "model_checking", "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "specification and conformance harness not built yet (work in progress)"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
