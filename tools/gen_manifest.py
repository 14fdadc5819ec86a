#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plan.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        mods = ", ".join(sorted({m for m, *_ in PLAN[i]["mc"]}))
        tr = ", ".join(sorted({m for _, m in PLAN[i]["drivers"]}))
        sim = PLAN[i].get("sim")
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ model checking (TLC: %s) bound to the code by trace validation (%s)%s" % (
                mods, tr, " and replay of TLC-generated behaviours" if sim else ""),
            level="model_checking",
            level_note=PLAN[i].get("note") or "Design model explored exhaustively within its bounds; the real code is "
            "judged by the TLA+ trace specification on every operation of the recorded runs (generated worlds and histories), "
            "so the implementation is covered as far as those runs reach. Trusted: TLC, the projection in harness/, numpy."))
    else:
        na.append(dict(property=i, reason="No check built yet."))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks are needed: the drivers use the public API of /repo. See DESIGN.md."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
