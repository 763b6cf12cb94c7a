#!/usr/bin/env python3
"""replay.py <replay.json>: re-run one recorded case and print what the monitors say."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
v = json.load(open(sys.argv[1]))
exe = build.build(v.get("flavour", "asan"))
r = run.run_cases(exe, v["mode"], v["seed"], 0, dict(v["args"], verbose="1"), per_case=300, ks=[v["case"]])
for k, c in r.cases.items():
    for n in c.notes:
        print("NOTE", n)
    for key, d in c.viol:
        print("VIOL", key, d)
    if c.crash:
        print("CRASH", c.crash[0]); print(c.crash[1])
    if c.timeout:
        print("TIMEOUT")
