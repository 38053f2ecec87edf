"""Run one property's check: workload families in forked workers, verdict,
evidence file.

exit 0  held on everything explored
exit 1  VIOLATION line(s)
exit 2  inconclusive / error of the check
"""

from __future__ import annotations

import argparse
import concurrent.futures as cf
import gc
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CASE_LIMIT = 240  # s, a hang watchdog: inconclusive when it fires
QUICK_SCALE = 4


def load(pid):
    import torch

    torch.set_num_threads(1)
    warnings.filterwarnings("ignore")
    from vlib import core

    mod = importlib.import_module(f"checks.{pid.lower()}")
    import ml4gw

    got = os.path.realpath(os.path.dirname(ml4gw.__file__))
    if got != os.path.join(core.REPO, "ml4gw"):
        raise SystemExit(f"ml4gw imported from {got}, not {core.REPO}")
    return mod, core.FAMILIES[pid]


_FAMS = {}


def _alarm(signum, frame):
    from vlib.core import Inconclusive

    raise Inconclusive(f"case exceeded {CASE_LIMIT} s")


def _work(pid, name, idxs, seed, tier, deadline):
    from vlib.core import run_case

    out = []
    signal.signal(signal.SIGALRM, _alarm)
    for i in idxs:
        if time.time() > deadline and out:
            break
        signal.alarm(CASE_LIMIT)
        t = time.time()
        try:
            r = run_case(pid, _FAMS[name], i, seed, tier)
        finally:
            signal.alarm(0)
        r["t"] = time.time() - t
        out.append(r)
    gc.collect()
    return out


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [
        f
        for f in json.load(open(path))["findings"]
        if f["property"] == pid and f.get("status") == "open"
    ]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))
    )
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--scale", type=float, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--stop", type=int, default=20)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    pid = a.pid
    try:
        mod, fams = load(pid)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={pid}: could not load the check or ml4gw")
        return 2
    for f in fams:
        _FAMS[f.name] = f

    if a.replay or a.index is not None:
        from vlib.core import run_case

        if a.replay:
            r = json.load(open(a.replay))
        else:
            r = dict(family=a.family, index=a.index, seed=a.seed, tier=a.tier)
        res = run_case(
            pid, _FAMS[r["family"]], r["index"], r["seed"], r["tier"]
        )
        print(json.dumps(res, indent=1)[:8000])
        return 1 if res["violations"] else 0

    workers = a.workers or int(
        getattr(mod, "WORKERS", min(7, os.cpu_count() or 4))
    )
    budget = a.budget or (
        getattr(mod, "BUDGET_QUICK", 100)
        if a.tier == "quick"
        else getattr(mod, "BUDGET_THOROUGH", 700)
    )
    deadline = t0 + budget
    # A quick run first does each family's own number of cases, whatever it
    # takes within the budget, then as much again QUICK_SCALE - 1 times within
    # half of it.
    scale = a.scale or (QUICK_SCALE if a.tier == "quick" else 1.0)
    plan = []
    for f in fams:
        if a.family and f.name != a.family:
            continue
        n = f.quick if a.tier == "quick" else f.thorough
        # interleave families so that a cut-off run has seen all of them
        n, end = max(1, round(n * min(1, scale))), max(1, round(n * scale))
        chunk = max(1, min(25, n // (workers * 3)))
        plan += [
            (0, -f.priority, c / n, f.name, list(range(c, min(n, c + chunk))))
            for c in range(0, n, chunk)
        ] + [
            (1, 0, c / end, f.name, list(range(c, min(end, c + chunk))))
            for c in range(n, end, chunk)
        ]
    plan.sort(key=lambda p: p[:3])
    extra_deadline = t0 + budget / 2 if a.scale is None else deadline

    results = []
    errors = []
    nviol = 0
    findings = known_findings(pid)
    known_kinds = {f["kind"] for f in findings}
    skipped = 0
    ctxm = mp.get_context("fork")
    gc.collect()
    gc.freeze()
    with cf.ProcessPoolExecutor(workers, mp_context=ctxm) as pool:
        todo = iter(plan)
        live = set()
        done = False
        while True:
            while not done and len(live) < workers * 2:
                p = next(todo, None)
                if p is None:
                    done = True
                    break
                until = extra_deadline if p[0] else deadline
                if time.time() > until:
                    skipped += len(p[4])
                    continue
                live.add(
                    pool.submit(_work, pid, p[3], p[4], a.seed, a.tier, until)
                )
            if not live:
                break
            fin, live = cf.wait(live, return_when=cf.FIRST_COMPLETED)
            for fu in fin:
                try:
                    rs = fu.result()
                except BaseException as e:
                    errors.append(f"worker failed: {e!r}")
                    continue
                results.extend(rs)
                nviol += sum(
                    v["kind"] not in known_kinds
                    for r in rs
                    for v in r["violations"]
                )
            if nviol >= a.stop or len(errors) > 5:
                done = True

    results.sort(key=lambda r: (r["family"], r["index"]))
    events, states, maxima = Counter(), set(), {}
    per_fam = {}
    samples, viol, known = [], [], {}
    for r in results:
        events.update(r["events"])
        states.update(r["states"])
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, v), v)
        d = per_fam.setdefault(r["family"], Counter())
        d["cases"] += 1
        d["time_s"] += r["t"]
        if r["status"] != "ok":
            errors.append(f"inconclusive: {r['error']}")
        if d["cases"] <= 2:
            samples.extend(r["samples"])
        for v in r["violations"]:
            if v["kind"] in known_kinds:
                known.setdefault(v["kind"], []).append(v)
            else:
                viol.append((r, v))

    if a.stats:
        for k, d in per_fam.items():
            print(f"  {k:40s} cases {d['cases']:6.0f}  {d['time_s']:8.2f}s")
        for k, v in sorted(events.items()):
            print(f"  event {k}: {v}")
        for k, v in sorted(maxima.items(), key=lambda kv: -kv[1]):
            print(f"  max {k}: {v:.3g}")

    for f in findings:
        vs = known.get(f["kind"], [])
        if vs:
            print(
                f"KNOWN-FINDING: property={pid} {f['what']} "
                f"(kind {f['kind']}, observed {len(vs)} times)"
            )

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    seen = Counter()
    for r, v in viol:
        seen[v["kind"]] += 1
        if seen[v["kind"]] > 3:
            continue
        path = os.path.join(
            HERE, "replays", f"{pid}-{r['family']}-{r['index']}-{a.seed}.json"
        )
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "family": r["family"],
                    "index": r["index"],
                    "seed": a.seed,
                    "tier": a.tier,
                    "violation": v,
                    "how": f"./check {pid} --replay {path}",
                },
                fh,
                indent=1,
            )
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  [{v['family']}#{v['index']}] {v['kind']}: {v['message']}")
        print(f"  witness: {v['witness']}")
        if r["error"]:
            print("  harness trace: " + r["error"])

    ran = {k for k, d in per_fam.items() if d["cases"]}
    if not a.family:
        for f in fams:
            if f.name not in ran and not viol:
                errors.append(f"family {f.name} never ran")
        req = getattr(mod, "REQUIRED", {})
        for k, n in req.items():
            if events.get(k, 0) < n and not viol:
                errors.append(
                    f"monitor event {k!r} seen {events.get(k, 0)} < {n} times"
                )
    if not results:
        errors.append("no case ran")

    wall = time.time() - t0
    peak = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024
    if not a.no_evidence and not a.family:
        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(states),
                "rule": mod.RULE,
                "samples": samples[:12],
                "monitor_events": dict(sorted(events.items())),
                "per_family_cases": {
                    k: int(d["cases"]) for k, d in per_fam.items()
                },
                "cases_skipped_at_time_budget": skipped,
                "largest_error_over_tolerance": {
                    k: float(f"{v:.3g}") for k, v in sorted(maxima.items())
                },
                "known_findings_observed": {
                    k: len(v) for k, v in known.items()
                },
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    print(
        f"{pid} tier={a.tier} seed={a.seed}: {len(results)} cases, "
        f"{len(states)} distinct situations, "
        f"{events.get('oracle_verdicts', 0)} verdicts, {len(viol)} violations"
        f", {skipped} skipped, {wall:.1f}s, largest worker {peak} MB"
    )
    if viol:
        return 1
    if errors:
        for e in errors[:10]:
            print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
