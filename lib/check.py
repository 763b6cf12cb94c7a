#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  (VERIF_SEED, VERIF_TIER)

Builds the monitors from /repo's working tree, runs the workloads of the property and decides from what the monitors
observed. Exit 0: held on everything observed. Exit 1 + VIOLATION line. Exit 2: the check itself failed.
"""
import json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
from spec import SPEC

VERIF = build.VERIF
LIMIT = {"quick": 600, "thorough": 3 * 3600}
KF = os.path.join(VERIF, "known-findings.txt")


def load_findings(prop):
    """lines: known: property=<id> case=<mode>[:<tag>]:<seed>:<k> key=<regex> <description>"""
    out = []
    for ln in open(KF):
        m = re.match(r"known: property=(\S+) case=(\S+) key=(\S+) (.*)", ln.strip())
        if m and m.group(1) == prop:
            out.append(dict(case=m.group(2), key=re.compile(m.group(3)), text=m.group(4)))
    return out


def finding_for(findings, case_id, key):
    for f in findings:
        if f["case"] == case_id and f["key"].fullmatch(key):
            return f
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("CHECK_ONLY")  # developer aid: only the run with this tag
    sp = SPEC[prop]
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    findings = load_findings(prop)
    violations, known, notes = [], [], []
    obs_total, states, samples, runs_ev = {}, set(), [], []
    evaluations = incon = skipped = 0
    slow = []
    exes = {}

    def handle(rn, r, sd):
        nonlocal evaluations, incon
        if r.errors:
            raise RuntimeError("run %s: %s" % (rn.tag, r.errors[0]))
        evaluations += len(r.cases)
        for k, v in r.obs.items():
            obs_total[k] = obs_total.get(k, 0) + v
        states.update(r.states)
        for k, c in sorted(r.cases.items()):
            if c.timeout:
                incon += 1
                slow.append("%s:%d:%d" % (rn.tag, sd, k))
                continue
            got = [(key, det) for key, det in c.viol if rn.owns(key)]
            if c.crash and any(c.crash[0].startswith(x) for x in rn.skipcrash):
                incon += 1
                slow.append("%s:%d:%d %s" % (rn.tag, sd, k, c.crash[0]))
            elif c.crash:
                got.append(("crash:" + c.crash[0], c.crash[1]))
            cid = "%s:%d:%d" % (rn.tag, sd, k)
            for key, det in got:
                f = finding_for(findings, cid, key)
                if f:
                    known.append((f, key))
                else:
                    violations.append(dict(run=rn.tag, mode=rn.mode, args=rn.args, seed=sd, case=k, key=key, detail=det,
                                           flavour=rn.flavour))
            if len(samples) < 6 and not got and c.notes and (k % 7 == 0):
                samples.append("%s: %s" % (cid, c.notes[0][:600]))

    for rn in sp["runs"]:
        if only and rn.tag != only:
            continue
        n = rn.n(tier)
        if n <= 0:
            continue
        if violations and time.time() - t0 > 240:
            break  # the answer is known, and the time may be limited
        if rn.flavour not in exes:
            exes[rn.flavour] = build.build(rn.flavour)
        exe = exes[rn.flavour]
        ts = time.time()
        r = run.run_cases(exe, rn.mode, seed, n, dict(rn.args, **({"sample": "1"})), per_case=rn.per_case, chunk=rn.chunk,
                          env=rn.env(), prefix=rn.prefix, budget=max(30, LIMIT[tier] - (time.time() - t0)))
        handle(rn, r, seed)
        skipped += r.skipped
        runs_ev.append(dict(run=rn.tag, mode=rn.mode, args=rn.args, cases=len(r.cases), wall_s=round(time.time() - ts, 1),
                            observed={k: v for k, v in sorted(r.obs.items())}))
        print("%s: %d cases, %.1fs, %s" % (rn.tag, len(r.cases), time.time() - ts,
                                         ", ".join("%s=%d" % kv for kv in sorted(r.obs.items())[:14])), flush=True)
    # reproducers of recorded findings
    byrun = {rn.tag: rn for rn in sp["runs"]}
    done = set()
    for f in findings:
        tag, sd, k = f["case"].split(":")
        rn = byrun.get(tag)
        if (violations and time.time() - t0 > 240) or rn is None or (tag, int(sd)) == (None, None) or f["case"] in done:
            continue
        done.add(f["case"])
        if int(sd) == seed and int(k) < rn.n(tier):
            continue
        if rn.flavour not in exes:
            exes[rn.flavour] = build.build(rn.flavour)
        r = run.run_cases(exes[rn.flavour], rn.mode, int(sd), 0, dict(rn.args, sample="1"), per_case=rn.per_case, ks=[int(k)], env=rn.env(), prefix=rn.prefix)
        handle(rn, r, int(sd))

    wall = time.time() - t0
    nontriv = sp["nontrivial"](obs_total)
    for f, key in {id(f): (f, k) for f, k in known}.values():
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, f["text"], key))
    missing = [] if only else [k for k in sp["must_observe"] if not any(o == k or (k.endswith("*") and o.startswith(k[:-1])) for o, v in obs_total.items() if v > 0)]
    ev = dict(property=prop, tier=tier, seed=seed, level=sp.get("level", "exploration"),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=nontriv, rule=sp["rule"],
                            samples=samples or ["no sample recorded"], observed=obs_total,
                            distinct_states=sorted(states)[:400], n_distinct_states=len(states), runs=runs_ev,
                            inconclusive=incon, not_run=skipped, inconclusive_cases=slow[:20], known_findings=len(known)),
              assumptions=sp.get("assumptions", []), wall_s=round(wall, 1), violations=len(violations))
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in violations:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            p = os.path.join(d, "%s-%s-%d-%d-%s.json" % (prop, v["run"], v["seed"], v["case"], re.sub(r"\W+", "_", v["key"])[:60]))
            v["replay_cmd"] = "python3 lib/replay.py %s" % os.path.relpath(p, VERIF)
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   %s: %s" % (v["key"], v["detail"][:700].replace("\n", " ")), flush=True)
            if len(seen) >= 12:
                break
        return 1
    if missing:
        print("check error: nothing observed for %s" % missing)
        return 2
    if incon > max(3, 0.2 * evaluations):
        print("check error: %d of %d cases inconclusive" % (incon, evaluations))
        return 2
    print("held: property=%s tier=%s seed=%d cases=%d nontrivial=%d states=%d inconclusive=%d wall=%.1fs" %
          (prop, tier, seed, evaluations, nontriv, len(states), incon, wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("check error: build: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
