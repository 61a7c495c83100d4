#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           technique="TLA+ specification, TLC model checking and TLC trace validation of recorded executions",
                           level="model_checking", level_note=NOTES.get(i, "") or NOTES["*"]))
    else:
        na.append(dict(property=i, reason="specification and driver not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, drivers using only the public API in harness/, runner bin/check; no hooks in /repo are needed."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
