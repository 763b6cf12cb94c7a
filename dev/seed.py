#!/usr/bin/env python3
"""Developer aid (no check uses it): seed.py add SPEC.py   - SPEC defines SEEDS=[dict(id,property,edits=[(file,old,new)],needs,breaks,demo)]
seed.py verify ID...  - apply, build, test, demo (must fail), optional checks, undo, build, demo (must pass)."""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    ids = []
    for s in ns["SEEDS"]:
        assert sh("git -C /repo status --porcelain").stdout == ""
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = sh("git -C /repo diff").stdout
        sh("git -C /repo checkout -- .")
        D = os.path.join(V, s["id"])
        os.makedirs(D, exist_ok=True)
        open(D + "/patch.diff", "w").write(d)
        open(D + "/demo.cpp", "w").write('#include "mini.hpp"\n' + s["demo"])
        shutil.copy("/verif/dev/tmpl/mini.hpp", D); shutil.copy("/verif/dev/tmpl/demo.sh", D)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
        ids.append(s["id"])
    verify(ids, checks="--checks" in sys.argv)
def verify(ids, checks=False):
    for i in ids:
        D = os.path.join(V, i)
        assert sh("git -C /repo status --porcelain").stdout == ""
        prop = json.load(open(D + "/meta.json"))["property"]
        r = sh("git -C /repo apply %s/patch.diff" % D)
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
        try:
            b = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            ok = '"failed": []' in open("/tmp/seedtest.json").read() and "CppExample" in open("/tmp/seedtest.json").read()
            d = sh("bash %s/demo.sh" % D, cwd="/repo")
            c = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 lib/check.py %s quick" % prop) if checks else None
        finally:
            sh("git -C /repo checkout -- .")
        b2 = sh("bash /opt/vp/build.sh")
        d2 = sh("bash %s/demo.sh" % D, cwd="/repo")
        print("%-28s %s tests=%s demo-with=%s demo-without=%s %s" % (i, prop, ok, d.returncode, d2.returncode, "" if c is None else "check=%d" % c.returncode))
        if d.returncode == 0 or not ok or d2.returncode: print("   with:", (d.stdout + d.stderr)[-600:], "   without:", (d2.stdout + d2.stderr)[-600:])
        else: print("   ", d.stdout.strip()[-200:])
        if c is not None: print("\n".join("      " + l[:300] for l in c.stdout.splitlines() if "VIOL" in l or "held" in l or "error" in l or l.startswith("   "))[:1500], flush=True)
if sys.argv[1] == "add": add(sys.argv[2])
else: verify([a for a in sys.argv[2:] if a[0] != "-"], "--checks" in sys.argv)
