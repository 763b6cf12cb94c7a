"""Developer aid: run a mode and print a summary of what was seen (not used by the checks)."""
import sys, os
from collections import Counter, defaultdict
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
mode, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
args = dict(a.split("=", 1) for a in sys.argv[4:] if not a.startswith("--"))
fl = "asan"
start = 0
for a in sys.argv[4:]:
    if a.startswith("--start="): start = int(a[8:])
exe = build.build(fl)
import time
t = time.time()
r = run.run_cases(exe, mode, seed, n, args, start=start)
print("%.1fs cases %d" % (time.time() - t, len(r.cases)))
print("errors", r.errors[:3])
print("obs", dict(r.obs))
print("states", len(r.states), sorted(r.states)[:30])
g = defaultdict(list)
for k, c in sorted(r.cases.items()):
    for key, d in c.viol: g["VIOL " + key].append((k, d))
    if c.crash: g["CRASH " + c.crash[0]].append((k, c.crash[1]))
    if c.timeout: g["TIMEOUT"].append((k, ""))
    for nt in c.notes:
        g["NOTE " + nt.split(" cfg")[0][:90]].append((k, nt))
show = int(os.environ.get("SHOW", "2"))
ln = int(os.environ.get("LEN", "300"))
for key in sorted(g):
    print("== %s: %d cases: %s" % (key, len(g[key]), [k for k, _ in g[key]][:12]))
    for k, d in g[key][:show]:
        print("   [%d] %s" % (k, d[:ln]))
tot = [(c.secs, k) for k, c in r.cases.items()]
tot.sort(reverse=True)
print("slowest", tot[:5])
