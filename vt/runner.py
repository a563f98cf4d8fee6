"""Runs the check of one property and writes its evidence."""
from __future__ import annotations

import collections
import concurrent.futures as cf
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time

from . import core, hooks, instrument, plans, props, stdlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
ITEM_SECONDS = {"quick": 30, "thorough": 240}
BUDGET = {"quick": 300, "thorough": 3000}
FURTHER = {"quick": 45, "thorough": 0}      # seconds: shapes beyond the selection are taken up until then
STAND_IN = {"quick": 60, "thorough": 400}
STAND_IN_OF = {"c13": {"quick": 12, "thorough": 100}}

TRUSTED = [
    "the engine in vt/ (symbolic values, ropes, regex automata, path exploration), cross-checked on every path "
    "by running a model of the path condition on the untouched library and comparing all observable events",
    "z3 (answers 'unsat')",
    "CPython semantics of the modelled built-ins (str, int, re, format, enum, dict, list)",
    "vt/spec.py as a transcription of the EPC Tag Data Standard and the GS1 General Specifications",
]


class TimeUp(BaseException):
    pass


def _alarm(*_):
    raise TimeUp("wall clock limit of one work item")


def work(arg):
    """One work item in a worker process."""
    item, seed, tier, concrete_only, corrupt = arg
    fn, scheme, shape, extra = item
    slib, clib = core.libs()
    check = getattr(props, fn)
    lim = ITEM_SECONDS[tier]
    rng = random.Random(f"{seed}|{fn}|{scheme}|{json.dumps(shape, sort_keys=True)}|{sorted(extra.items(), key=str)}")
    hooks.ENTERED.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(4 * lim)
    try:
        case = props.make_case(fn, scheme, shape, extra)
        acc = core.prove(check, None if concrete_only else slib, clib, case, rng, deadline=time.time() + lim,
                         stand_in=concrete_only or STAND_IN_OF.get(fn, STAND_IN)[tier], corrupt=corrupt)
    except (Exception, TimeUp) as e:
        # the engine gave up (time, memory, internal error): bounded stand-in
        signal.alarm(lim)
        why = str(e) if isinstance(e, TimeUp) else f"{type(e).__name__}: {e}"[:300]
        try:
            case = props.make_case(fn, scheme, shape, extra)
            acc = core.prove(check, None, clib, case, rng, stand_in=STAND_IN_OF.get(fn, STAND_IN)[tier],
                             corrupt=corrupt)
        except (Exception, TimeUp):
            acc = core.Acc()
        acc.unsupported = why
    finally:
        signal.alarm(0)
    d = acc.pack()
    d["entered"] = sorted(hooks.ENTERED)
    return item, d, corrupt is not None


def init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run(pid, tier, seed, repo=core.REPO, only=None, jobs=None, limit=None):
    t0 = time.time()
    slib, clib = core.libs(repo)
    further = []
    items = plans.items(pid, tier, seed, further)
    if only:
        items, further = ([i for i in l if i[0] in only or i[1] in only or i[3].get("coding") in only]
                          for l in (items, further))
    if limit:
        items, further = items[:limit], []
    canaries = plans.canaries(items, seed)
    args = [(i, seed, tier, 0 if slib is not None else 15, None) for i in items] + \
           [(i, seed, tier, 0, k) for i, k in canaries if slib is not None]
    tot = collections.Counter()
    by = collections.Counter()
    groups = collections.defaultdict(collections.Counter)
    entered, labels = set(), collections.Counter()
    violations, unsupported, mismatch, samples = [], [], [], []
    canary = {"run": 0, "refuted": 0, "missed": []}
    z3_time = slowest = 0.0
    budget = BUDGET[tier]
    done = 0
    ctx = multiprocessing.get_context("fork")
    ex = cf.ProcessPoolExecutor(jobs or min(8, os.cpu_count() or 1), mp_context=ctx, initializer=init)
    pending = collections.deque(args)
    further = collections.deque(further if slib is not None else ())
    running = {}
    late = []
    more = 0
    try:
        while pending or running:
            over = time.time() - t0 > budget
            while further and len(pending) + len(running) < 32 and time.time() - t0 < FURTHER[tier]:
                pending.append((further.popleft(), seed, tier, 0, None))
                more += 1
            while pending and len(running) < 32:
                a = pending.popleft()
                if over and a[4] is None:
                    # the older the run, the fewer concrete arguments stand in
                    age = (time.time() - t0) / budget
                    a = (a[0], a[1], a[2], 15 if age < 1.5 else 4 if age < 2 else 1, None)
                    late.append(a[0])
                running[ex.submit(work, a)] = a
            ok, _ = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            for f in ok:
                a = running.pop(f)
                item, d, is_canary = f.result()
                if is_canary:
                    canary["run"] += 1
                    if d["violations"]:
                        canary["refuted"] += 1
                    elif not (d["unsupported"] or d["mismatch"]):
                        canary["missed"].append([item[0], item[1], a[4]])
                    continue
                done += 1
                g = groups[item[0] + " " + str(item[3].get("coding") or item[1])]
                g["items"] += 1
                for k in ("obligations", "discharged", "paths", "witnesses", "concrete", "bounded", "z3_calls"):
                    tot[k] += d[k]
                    g[k] += d[k]
                by.update(d["by"])
                labels.update(d["labels"])
                z3_time += d["z3_time"]
                slowest = max(slowest, d["seconds"])
                entered.update(d["entered"])
                if d["sample"] and len(samples) < 12 and g["items"] in (1, 3):
                    samples.append({"check": item[0], "sample": d["sample"]})
                if d["violations"]:
                    violations += [(item, v) for v in d["violations"]]
                elif d["unsupported"]:
                    g["bounded_items"] += 1
                    unsupported.append([item[0], item[1], item[2], item[3], d["unsupported"]])
                elif d["mismatch"]:
                    g["bounded_items"] += 1
                    mismatch.append([item[0], item[1], item[2], d["mismatch"][0][0]])
                elif d["obligations"] == 0:
                    g["vacuous"] += 1
                else:
                    g["proved_items"] += 1
            if violations:
                break
    except cf.process.BrokenProcessPool:
        unsupported.append(["pool", "", {}, {}, "a worker process died"])
    finally:
        for f in running:
            f.cancel()
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            if p.is_alive():
                p.terminate()
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "checker_cmd": f"VERIF_TIER={tier} VERIF_SEED={seed} python3-vt -W ignore check.py {pid}",
            "trusted_base": TRUSTED,
            "discharged_by": dict(by),
            "solver_seconds": round(z3_time, 2), "solver_calls": tot["z3_calls"],
            "work_items": len(items) + more, "work_items_done": done,
            "further_shapes": more, "further_shapes_until_s": FURTHER[tier], "shapes_not_taken": len(further),
            "proved_items": sum(g["proved_items"] for g in groups.values()),
            "paths": tot["paths"],
            "paths_replayed_on_untouched_library": tot["witnesses"],
            "extra_concrete_runs": tot["concrete"],
            "quantification": plans.QUANT[pid],
            "selection": plans.selection(pid, tier),
            "groups": {k: dict(v) for k, v in sorted(groups.items())},
            "obligation_labels": dict(labels),
            "functions_under_symbolic_execution": sorted(entered - {":<lambda>"}),
            "functions_of_the_package": len(instrument.NAMES),
            "not_proved_bounded_stand_in": {
                "items": len(unsupported) + len(mismatch), "concrete_cases": tot["bounded"],
                "unsupported": unsupported[:20], "mismatch": mismatch[:20],
                "after_time_budget": len(late),
            },
            "vacuity_guard": {
                "corrupted_obligations_run": canary["run"], "refuted_and_replayed": canary["refuted"],
                "missed": canary["missed"],
            },
            "slowest_item_s": round(slowest, 2),
            "samples": samples,
            "library_contracts_enumerated": stdlib.check() if pid in plans.BASE64 else {},
            "instrumented": slib is not None, "instrumentation_error": core.LOAD_ERROR[0],
        },
        "assumptions": plans.ASSUME["all"] + (plans.ASSUME["base64"] if pid in plans.BASE64 else [])
        + plans.ASSUME.get(pid, []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    return ev, violations


def findings(pid):
    """Open known findings of a property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("open:") and f"property={pid} " in line:
                out.append(line[5:].strip())
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args(argv)
    pid = a.property
    if a.replay:
        return replay(pid, a.replay)
    tier = a.tier if a.tier in ITEM_SECONDS else "quick"
    ev, violations = run(pid, tier, a.seed, only=a.only.split(",") if a.only else None, limit=a.limit)
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    for l in findings(pid):
        print(f"KNOWN-FINDING: {l}")
    c = ev["coverage"]
    print(f"{pid} {tier}: {c['discharged']}/{c['obligations']} obligations discharged over {c['paths']} paths, "
          f"{c['proved_items']}/{c['work_items']} items proved, "
          f"{c['not_proved_bounded_stand_in']['items']} bounded, wall {ev['wall_s']} s")
    if violations:
        for n, (item, (label, detail, dump)) in enumerate(violations[:3]):
            rp = os.path.join(EVIDENCE, f"replay-{pid}-{n}.json")
            with open(rp, "w") as f:
                json.dump({"property": pid, "check": item[0], "label": label, "detail": detail, "case": dump}, f, indent=1)
            print(f"  {item[0]} {item[1]}: {label}: {detail[:300]}")
            print(f"VIOLATION property={pid} replay={os.path.relpath(rp, ROOT)}")
        return 1
    # vacuity guards
    if c["obligations"] == 0 and c["instrumented"]:
        if c["extra_concrete_runs"] == 0:
            print("check error: no obligation and no concrete run")
            return 2
    if c["vacuity_guard"]["missed"]:
        print("check error: a corrupted obligation was not refuted:", c["vacuity_guard"]["missed"][:3])
        return 2
    vac = [k for k, g in c["groups"].items() if g.get("vacuous", 0) == g["items"]]
    if vac and not only_bounded(c):
        print("check error: groups without obligations:", vac[:5])
        return 2
    return 0


def only_bounded(c):
    return not c["instrumented"]


def replay(pid, path):
    d = json.load(open(path))
    _, clib = core.libs()
    case = core.Case.load(d["case"])
    R = core.run_concrete(getattr(props, d["check"]), clib, case)
    if R is None:
        print("case outside the precondition")
        return 0
    for label, detail in R.failures:
        print(f"{d['check']}: {label}: {detail}")
    if R.failures:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("no failure")
    return 0
