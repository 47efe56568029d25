#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import jobs
NA = {}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if jobs.plan(p, "quick"):
        checks.append({
            "property": p,
            "quick_cmd": "python3 /verif/check.py %s --tier quick" % p,
            "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p,
            "technique": "bounded symbolic execution of the library's LLVM IR, decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": jobs.NOTES.get(p, jobs.NOTES["*"]),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
