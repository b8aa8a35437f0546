#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation is compiled and linked in from outside (sanitizers, --wrap interposition, "
              "guard pages, callbacks of the public API). The /repo commits are 'fix:' repairs, listed in KNOWN_FINDINGS.txt."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    c = CHECKS[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py --property %s --tier quick" % i,
        "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
