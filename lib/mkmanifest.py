#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the spec and the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import SPEC
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPEC:
        s = SPEC[i]
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i, thorough_cmd="python3 lib/check.py %s thorough" % i,
                           technique=s.get("technique", "runtime monitoring of the real code (ASan+UBSan build) under randomised and hostile workloads; "
                                                        "oracle: independent model re-evaluation and exhaustive reference"),
                           level=s.get("level", "exploration"), level_note=s["rule"][:400]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py asan", checks=checks, not_applicable=na,
               notes="All checks build /repo's working tree with -fsanitize=address,undefined into /verif/build (ignored by git) and run "
                     "the monitors of mon/ in isolated worker processes. No hooks in /repo are used. Replay: python3 lib/replay.py <file>."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
