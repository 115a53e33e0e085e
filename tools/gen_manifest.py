#!/usr/bin/env python3
"""MANIFEST.json from the table of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"] + " Trusted: " + "; ".join(c["assumptions"]) + ".",
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check has been built yet")} for p in props if p["id"] not in CHECKS],
     "notes": "No hooks in /repo: every harness only uses the public API (and link-time interposition for C20). Checks build from /repo/include in their own scratch directory."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")
