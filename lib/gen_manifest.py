#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    c = {"property": i, "quick_cmd": "python3 run_check.py %s quick" % i,
         "thorough_cmd": "python3 run_check.py %s thorough" % i,
         "evidence_file": "evidence/%s.json" % i,
         "technique": p.get("technique", "runtime monitoring: generated and hostile workloads on the real library built with ASan+UBSan, judged online by an independent oracle"),
         "level": "exploration",
         "level_note": p.get("note", "holds on every execution observed; workload sizes and what the monitors saw are in the evidence file")}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": props.NA.get(i, "check not built yet")} for i in ids if i not in props.PROPS],
     "notes": "No hooks are compiled into /repo; harnesses call public and (by subclassing) protected members only."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
