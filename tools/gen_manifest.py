#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/jobs.py and the not-applicable list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import jobs
NA = getattr(jobs, "NOT_APPLICABLE", {})
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    if i in jobs.PROPS:
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i, level="model_checking",
                           technique="symbolic execution of the LLVM bitcode of the real sources; Z3 decides every branch, memory access and assertion; counterexamples replayed natively",
                           level_note="exhaustive within stated bounds: " + jobs.PROPS[i]["bounds"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
