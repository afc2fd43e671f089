"""Entry point of every check: python -m vlib.main <PROPERTY> [--tier quick|thorough] [--job NAME]."""

import argparse
import collections
import importlib
import json
import os
import re
import sys
import time
import traceback

from vlib import core


def load_known(prop):
    path = os.path.join(core.HOME, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {x["key"]: x for x in data["known"] if x["property"] == prop}


def short_of(mod, results):
    """The monitors that have not observed enough for a verdict."""
    counters = collections.Counter()
    for r in results:
        counters.update(r["counters"])
    return [f"{name}={counters.get(name, 0)} (needs {low})"
            for name, low in getattr(mod, "REQUIRED", {}).items() if counters.get(name, 0) < low]


def replay_cmd(prop, args, job):
    rnd = re.search(r"\+(\d+)$", job)
    if rnd:
        job = job[:rnd.start()]
    return f"VERIF_SEED={args.seed + 1000 * int(rnd[1] if rnd else 0)} ./run.sh {prop} --tier {args.tier} --job {job}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--job", default=None, help="only jobs whose name contains this (replay)")
    args = ap.parse_args()
    t0 = time.monotonic()
    core.enter_scratch("main")
    prop = args.prop

    try:
        mod = importlib.import_module("checks." + prop.lower())
        jobs = mod.jobs(args.tier, args.seed)
    except Exception as e:  # noqa
        print(f"INCONCLUSIVE property={prop}: the check cannot be loaded against this tree")
        traceback.print_exc()
        return 2
    if args.job:
        jobs = [j for j in jobs if args.job in j.name]
    results = core.run_jobs(jobs, args.seed, args.tier)
    rounds = 1
    # Many workloads are bounded by time: on a loaded machine one pass may not have observed all that a
    # verdict needs.  Observe more, with other seeds, instead of giving no answer.
    while (not args.job and short_of(mod, results) and rounds < 6
           and not any(r["violations"] or r.get("error") for r in results)
           and (time.monotonic() - t0) * (rounds + 1) / rounds < 600):
        more = core.run_jobs(mod.jobs(args.tier, args.seed + 1000 * rounds), args.seed + 1000 * rounds, args.tier)
        for r in more:
            r["job"] += f"+{rounds}"
        results += more
        rounds += 1

    evals = sum(r["evals"] for r in results)
    distinct = set()
    counters = collections.Counter()
    samples, violations, errors = [], [], []
    for r in sorted(results, key=lambda r: r["job"]):
        distinct.update(r["distinct"])
        counters.update(r["counters"])
        for s in r["samples"]:
            samples.append({"job": r["job"], **(s if isinstance(s, dict) else {"case": s})})
        violations += r["violations"]
        if r.get("error"):
            errors.append((r["job"], r["error"]))
    known = load_known(prop)
    new = [v for v in violations if v["key"] not in known]
    seen_known = collections.Counter(v["key"] for v in violations if v["key"] in known)

    # a few samples of every kind of job
    by_kind = {}
    for s in samples:
        by_kind.setdefault(re.sub(r"[-/]?\d+$", "", s["job"]), []).append(s)
    shown = []
    for kind in sorted(by_kind):
        shown += by_kind[kind][:2]
    shown = shown[:40]

    missing = [] if args.job else short_of(mod, results)

    for key, cnt in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']} [{key}, seen {cnt}x]")

    replay = None
    if new:
        rdir = os.path.join(core.HOME, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{prop}-{args.tier}-{args.seed}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "tier": args.tier, "seed": args.seed,
                       "replay_cmd": replay_cmd(prop, args, new[0]["job"]),
                       "violations": new[:50]}, f, indent=1)

    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": shown,
            "observed": dict(sorted(counters.items())),
            "jobs": len(results), "rounds": rounds,
            "job_wall_s": {r["job"]: r["wall"] for r in sorted(results, key=lambda r: -r["wall"])[:12]},
            "known_findings_seen": dict(seen_known),
            "inconclusive": [f"{j}: {e[-300:]}" for j, e in errors] + missing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": [{k: v[k] for k in ("key", "what", "job")} for v in new[:50]],
        "wall_s": round(time.monotonic() - t0, 2),
    }
    if not args.job:
        path = os.path.join(core.HOME, "evidence", f"{prop}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, path)

    print(f"{prop} tier={args.tier} seed={args.seed}: {len(results)} jobs, {evals} evaluations, "
          f"{len(distinct)} distinct, {len(new)} violations, {len(errors)} errors, {evidence['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE") or args.job:
        for k, v in sorted(counters.items()):
            print(f"  {k} = {v}")
    for v in new[:10]:
        print(f"  [{v['key']}] {v['job']}: {v['what'][:300]}")
    for j, e in errors[:5]:
        print(f"  ERROR in job {j}: {e[-1500:]}")
    if new:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors or missing or evals == 0:
        print(f"INCONCLUSIVE property={prop}: {'; '.join(missing) or 'harness error'}")
        return 2
    print(f"HELD property={prop} on everything observed")
    return 0


if __name__ == "__main__":
    sys.exit(main())
