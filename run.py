#!/usr/bin/env python
"""Runs the runtime monitor of one property.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--cases N] [--jobs N]

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;
exit 2: inconclusive (harness error or the deciding monitors were not reached).
"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import sys
import traceback

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# the code under test is /repo's current working tree
sys.path.insert(0, "/repo/src")


def case_rng(seed, prop, idx):
    return random.Random("%s:%s:%s" % (seed, prop, idx))


def run_block(args):
    prop, tier, seed, indices, deadline = args
    from vlib import world, clock
    from vlib.report import Rep

    world.reset_tmp()
    mod = importlib.import_module("checks." + prop.lower())
    rep = Rep(prop, tier, seed)
    for i in indices:
        if clock.real_time() > deadline:
            rep.count("stopped_by_wall_cap")
            break
        world.reset_clock()
        rep.begin(i)
        rng = case_rng(seed, prop, i)
        try:
            mod.run_case(rng, rep, i)
        except (OSError, MemoryError, ImportError):
            rep.errors.append("case %s: %s" % (i, traceback.format_exc()[-1800:]))
            if len(rep.errors) > 20:
                break
        except Exception as e:
            # the server gave something the scenario cannot go on with (on a sound server it never does)
            rep.violation("cannot-continue", "%r in %s" % (e, traceback.format_exc().strip().splitlines()[-3].strip()))
        rep.end()
        w = rep.world
        if w is not None:
            w.close()
        if len(rep.violations) > 200:
            break
    import shutil

    if world._TMP:
        shutil.rmtree(world._TMP, ignore_errors=True)
    return rep.export()


def known_findings(prop):
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            parts = line.split(" ", 3)
            mech = parts[2][len("mechanism="):]
            res[mech] = parts[3] if len(parts) > 3 else ""
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    os.chdir(HERE)

    from vlib import world, clock
    from vlib.report import Rep
    import tempfile

    t0 = clock.real_time()
    mod = importlib.import_module("checks." + prop.lower())
    seed, tier = a.seed, a.tier
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier = rp["seed"], rp["tier"]
        indices = [v["case"] for v in rp["violations"]]
        indices = sorted(set(indices))
        n = len(indices)
    else:
        n = a.cases or mod.CASES[tier]
        indices = list(range(n))
    # scratch working directory: nothing may be written into /repo or /verif
    scratch = tempfile.mkdtemp(prefix="oidcv.cwd.")
    os.chdir(scratch)
    # build the key pool once, before forking
    for i in range(getattr(mod, "SERVER_KEYS", 2)):
        world.key_objs("server", i)
    for i in range(getattr(mod, "CLIENT_KEYS", 2)):
        world.key_objs("client", i)
    cap = {"quick": 240, "thorough": 800}.get(tier, 240)
    deadline = clock.real_time() + cap
    jobs = max(1, min(a.jobs, n))
    rep = Rep(prop, tier, seed)
    if jobs == 1 or a.replay:
        rep.merge(run_block((prop, tier, seed, indices, deadline)))
    else:
        blocks = []
        per = jobs * 4
        for k in range(per):
            blk = indices[k::per]
            if blk:
                blocks.append((prop, tier, seed, blk, deadline))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(jobs) as pool:
            for d in pool.imap_unordered(run_block, blocks):
                rep.merge(d)
    os.chdir(HERE)
    import shutil

    shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    new, listed = [], {}
    for v in sorted(rep.violations, key=lambda v: (v["case"], v["mech"])):
        if v["mech"] in known:
            listed.setdefault(v["mech"], []).append(v)
        else:
            new.append(v)
    wall = clock.real_time() - t0

    # reach of the deciding monitors
    missing = []
    if not a.replay:
        for name, least in getattr(mod, "MUST_OBSERVE", {}).items():
            tot = sum(c for k, c in rep.counters.items() if k.startswith(name))
            if tot < least:
                missing.append("%s (%d < %d)" % (name, tot, least))

    cov = {
        "evaluations": rep.evals,
        "distinct_nontrivial": len(rep.sigs),
        "rule": mod.RULE,
        "samples": rep.samples[:6],
        "oracle_evaluations": {k[7:]: c for k, c in sorted(rep.counters.items()) if k.startswith("oracle:")},
        "events_observed": {k[3:]: c for k, c in sorted(rep.counters.items()) if k.startswith("ev:")},
        "other_counters": {k: c for k, c in sorted(rep.counters.items())
                           if not k.startswith(("oracle:", "ev:"))},
        "known_findings_hit": {k: len(v) for k, v in listed.items()},
    }
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump({
                "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
                "seed": seed, "level": "exploration", "coverage": cov,
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(wall, 2), "violations": len(new),
            }, f, indent=1, default=str)

    print("%s tier=%s seed=%s cases=%d distinct=%d oracle-evaluations=%d wall=%.1fs" % (
        prop, tier, seed, rep.evals, len(rep.sigs), sum(cov["oracle_evaluations"].values()), wall))
    if a.v:
        for k, c in sorted(rep.counters.items()):
            print("   ", k, c)
    for mech in known:
        # one line for each listed finding
        hits = listed.get(mech, [])
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" % (
            prop, known[mech] or mech, mech, len(hits)))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, tier, seed))
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "violations": new[:40]}, f,
                          indent=1, default=str)
        bym = {}
        for v in new:
            bym.setdefault(v["mech"], []).append(v)
        for m, vs in sorted(bym.items()):
            print("  %-40s x%-4d case %s: %s" % (m, len(vs), vs[0]["case"], vs[0]["msg"]))
        if a.replay:
            for v in new[:3]:
                print(json.dumps(v, indent=1, default=str))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        for e in rep.errors[:2]:
            print("harness error:", e)
        return 1
    if rep.errors:
        for e in rep.errors[:3]:
            print("harness error:", e)
        print("INCONCLUSIVE property=%s: %d harness errors" % (prop, len(rep.errors)))
        return 2
    if rep.counters.get("stopped_by_wall_cap") and rep.evals < n // 10:
        print("INCONCLUSIVE property=%s: wall cap" % prop)
        return 2
    if missing:
        print("INCONCLUSIVE property=%s: monitors not reached: %s" % (prop, "; ".join(missing)))
        return 2
    print("HELD property=%s on %d executions" % (prop, rep.evals))
    return 0


if __name__ == "__main__":
    sys.exit(main())
