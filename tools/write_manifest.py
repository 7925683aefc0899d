#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and rt/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rt import meta
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in meta.PROPS:
        na.append({"property": p, "reason": "not yet built: the monitor for it is still to be written"})
        continue
    m = meta.PROPS[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                   "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": m.get("technique", "runtime monitoring: online oracle (independent reference model) over randomised workloads"),
                   "level": m.get("level", "exploration"),
                   "level_note": m.get("note", "Held on every execution observed; evidence counts the calls, states and comparisons. Trusts the NumPy reference model in rt/ref.py and the floating-point tolerances stated in DESIGN.md.")})
json.dump({"version": 1, "setup_cmd": "python3 rt/build.py plain asan tsan", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor wraps the public API from outside (worker processes on plain, ASan+UBSan or TSan builds of the working tree)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
