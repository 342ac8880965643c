#!/usr/bin/env python3
"""writes MANIFEST.json from the check registry and properties.jsonl"""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "harness"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
 "C21": "Every enumerated schedule of the real compiled code is executed under a controlled scheduler and compared bit for bit with the isolated run. Sequentially consistent interleavings at memory-access granularity; within the preemption bound.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=c["technique"], level="model_checking",
            level_note=NOTE.get(i, "Every case of the stated bounded space is executed on the real code built from the working tree and compared with an independent model; nothing is sampled. Outside the bounds no claim is made. Trusted: " + "; ".join(c["assumptions"] or ["compiler and harness"]))))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the harness builds the working tree's sources with its own flags (address sanitizer, small capacities, instrumented memory accesses).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "unclaimed")
