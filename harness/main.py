import argparse
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[0:0] = [HERE, os.path.join(VERIF, "vendor"), os.environ.get("NIDN_REPO", "/repo")]

import core  # noqa: E402

_SUITE = None
# quick runs are sized for 15 to 70 s on eight cores
BOOST = dict(P01=2, P02=2.5, P03=2, P05=2, P06=2, P09=1.5, P13=2, P14=3, P15=1.5, P16=2, P17=3, P18=4, P19=2.5, P20=3, P22=1.5, P23=1.5, P24=2, P25=2.5, P27=4, P29=2)


def load_suite(pid):
    import boot

    boot.setup()
    mod = importlib.import_module("checks." + pid.lower())
    return mod.SUITE


def _work(task):
    name, shard, n, seed = task
    case = next(c for c in _SUITE.cases if c.name == name)
    t = time.time()
    res = core.run_shard(case, n, seed, shard)
    res["shard"] = shard
    res["wall"] = time.time() - t
    return res


def known_findings(pid):
    """Open findings: lines 'known: property=<id> case=<case> key=<sha1 of the input> text'."""
    path = os.path.join(VERIF, "known_findings.txt")
    found = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                parts = dict(p.split("=", 1) for p in line.split() if "=" in p)
                found[(parts.get("case"), parts.get("key"))] = line
    return found


def main():
    global _SUITE
    if sys.argv[1:2] == ["--selftest"]:
        import boot

        boot.setup()
        import hypothesis

        print("NIDN imports, hypothesis", hypothesis.__version__)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()

    try:
        _SUITE = load_suite(args.prop)
    except Exception as e:  # NIDN does not import: no answer
        import traceback

        traceback.print_exc()
        print(f"HARNESS-ERROR property={args.prop} cannot load: {e}")
        return 2

    if args.replay:
        data = json.load(open(args.replay))
        case = next(c for c in _SUITE.cases if c.name == data["case"])
        rec, err = core.run_one(case, data["value"])
        print("labels:", rec.labels)
        if err is None:
            print("replay: passes")
            return 0
        print("replay:", err[0], err[1])
        if err[0] == "harness":
            return 2
        print(f"VIOLATION property={args.prop} replay={args.replay}")
        return 1

    tasks = []
    for ci, case in enumerate(_SUITE.cases):
        if args.case and case.name != args.case:
            continue
        total = case.thorough if tier == "thorough" else int(case.quick * BOOST.get(args.prop, 1))
        shards = min(max(case.shards, 16 if tier == "thorough" else 0), max(1, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            h = hashlib.sha256(f"{seed}/{args.prop}/{case.name}/{s}".encode()).hexdigest()
            tasks.append((case.name, s, n, int(h[:12], 16)))

    import multiprocessing as mp

    if not tasks:
        print("HARNESS-ERROR no cases")
        return 2
    ctx = mp.get_context("fork")
    results = []
    failed = None
    errors = []
    budget = 780 if tier == "quick" else 6 * 3600
    pool = ctx.Pool(args.jobs, maxtasksperchild=None)
    try:
        it = pool.imap_unordered(_work, tasks, chunksize=1)
        while len(results) < len(tasks):
            try:
                res = it.next(timeout=max(1.0, budget - (time.time() - t0)))
            except mp.TimeoutError:
                done = {c: sum(r["case"] == c for r in results) for c in {t[0] for t in tasks}}
                if len(results) < len(tasks) / 2 or not all(done.values()):
                    errors.append("time budget exhausted: inconclusive")
                else:
                    print(f"time budget exhausted: {len(results)} of {len(tasks)} parts explored")
                break
            results.append(res)
            if res["harness_error"]:
                errors.append(f"{res['case']}: {res['harness_error']}")
                break
            if res["failure"]:
                failed = res
                break
    finally:
        pool.terminate()
        pool.join()

    known = known_findings(args.prop)
    violation = None
    if failed is not None:
        value = failed["failure"]["value"]
        key = hashlib.sha1(core.canon(value).encode()).hexdigest()[:16]
        if (failed["case"], key) in known:
            print("KNOWN-FINDING:", known[(failed["case"], key)])
        else:
            os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "evidence", "replays", f"{args.prop}-{failed["case"].replace(" ", "_")}-{key}.json")
            json.dump(dict(property=args.prop, case=failed["case"], kind=failed["failure"]["kind"],
                           text=failed["failure"]["text"], value=value), open(rp, "w"), indent=1)
            violation = dict(replay=rp, case=failed["case"], kind=failed["failure"]["kind"],
                             text=failed["failure"]["text"])

    per = {}
    distinct = set()
    evaluations = 0
    samples = []
    for r in results:
        d = per.setdefault(r["case"], dict(evaluations=0, distinct_nontrivial=0, labels={}, cpu_s=0.0))
        d["evaluations"] += r["evaluations"]
        new = {(r["case"], h) for h in r["nontrivial"]} - distinct
        distinct |= new
        d["distinct_nontrivial"] += len(new)
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        evaluations += r["evaluations"]
        if r["shard"] == 0:
            samples += [dict(case=r["case"], value=s) for s in r["samples"][:1]]
    rules = {c.name: c.rule for c in _SUITE.cases if c.rule}
    evidence = dict(
        property=args.prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct),
                      rule=_SUITE.rule, samples=samples[:12], case_rules=rules, per_case=per),
        assumptions=_SUITE.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
    )
    if violation:
        evidence["coverage"]["violation_detail"] = violation
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for name, d in sorted(per.items()):
        print(f"{args.prop} {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, "
              f"{d['cpu_s']} cpu-s, labels={dict(sorted(d['labels'].items()))}")
    print(f"{args.prop}: {evaluations} cases, {len(distinct)} distinct non-trivial, {evidence['wall_s']} s")
    if violation:
        print(f"failed case: {violation['case']} ({violation['kind']}): {violation['text']}")
        print(f"VIOLATION property={args.prop} replay={violation['replay']}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS-ERROR", e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
