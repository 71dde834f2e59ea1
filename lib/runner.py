"""Runs one property: generated plans -> explicit oracle -> evidence / replay file.

A check module defines
    ID, RULE, ASSUMPTIONS, PARTS = [Part(...), ...]
A Part has a name, a Hypothesis strategy of JSON-able plans, and run(plan),
which raises on a violation and returns (nontrivial: bool, tags: iterable).
Optionally known() -> list of (key, text) of recorded findings that still show.
"""

import argparse
import asyncio
import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import common, guard
from .fakedut import StepBudget

WORKERS = 8
QUICK = 3  # every quick check runs this many times the cases its parts ask for
CPU_PER_CASE = 10.0
SHRINK_WALL = 40.0
SOFT_WALL = {"quick": 150.0, "thorough": 3000.0}


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name = name
        self.strategy = strategy  # zero-argument callable
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 20


class Stop(BaseException):
    pass


def canonical(plan):
    return json.dumps(plan, sort_keys=True, separators=(",", ":"))


def execute(part, plan):
    """Run one plan; returns (nontrivial, tags); raises Exception on failure."""
    plan = json.loads(canonical(plan))
    with guard.cpu_guard(CPU_PER_CASE):
        try:
            out = part.run(plan)
        except (StepBudget, asyncio.CancelledError, SystemExit, GeneratorExit) as exc:
            # nothing in a plan asks for these: they are the code's own doing
            raise AssertionError(f"{type(exc).__name__} out of the code: {exc}") from exc
    nontrivial, tags = out
    return bool(nontrivial), list(tags)


def run_shard(mod, part, tier, seed, n, outq):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    guard.install()
    t0 = time.time()
    st = {
        "evaluations": 0,
        "distinct": set(),
        "samples": [],
        "tags": collections.Counter(),
        "skipped": 0,
        "fail": None,
    }
    fail = {"at": None}

    def record_failure(plan, exc):
        text = "".join(traceback.format_exception(exc))
        size = len(canonical(plan))
        if st["fail"] is None or size <= st["fail"]["size"]:
            st["fail"] = {
                "size": size,
                "plan": plan,
                "message": f"{type(exc).__name__}: {exc}"[:2000],
                "traceback": text[-6000:],
            }
        if fail["at"] is None:
            fail["at"] = time.time()

    def body(plan):
        now = time.time()
        if fail["at"] is None and now - t0 > SOFT_WALL[tier]:
            st["skipped"] += 1
            return
        if fail["at"] is not None and now - fail["at"] > SHRINK_WALL:
            raise Stop()
        st["evaluations"] += 1
        try:
            nontrivial, tags = execute(part, plan)
        except guard.Hang as exc:
            record_failure(plan, exc)
            raise Stop()
        except Exception as exc:
            record_failure(plan, exc)
            raise
        st["tags"].update(set(tags))
        if nontrivial:
            c = canonical(plan)
            h = hashlib.sha1(c.encode()).digest()[:8]
            if h not in st["distinct"]:
                st["distinct"].add(h)
                if len(st["distinct"]) in (1, 9, 60):
                    st["samples"] = [json.loads(c)]

    test = given(part.strategy())(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    error = None
    try:
        test()
    except Stop:
        pass
    except BaseException as exc:  # the failure itself, or Flaky after it
        if st["fail"] is None:
            error = "".join(traceback.format_exception(exc))[-6000:]
    st["distinct"] = [h.hex() for h in st["distinct"]]
    st["tags"] = dict(st["tags"])
    st["error"] = error
    outq.put(st)


def shard_main(mod, part, tier, seed, n, path):
    class Out:
        def put(self, st):
            with open(path + ".tmp", "w") as f:
                json.dump(st, f)
            os.replace(path + ".tmp", path)

    import resource

    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    run_shard(mod, part, tier, seed, n, Out())
    os._exit(0)


def load_known(pid):
    out = []
    path = os.path.join(common.VERIF, "known_findings.json")
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            if f["property"] == pid:
                out.append(f)
    return out


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    parts = {p.name: p for p in mod.PARTS}

    if args.replay:
        guard.install()
        data = json.load(open(args.replay))
        try:
            execute(parts[data["part"]], data["plan"])
        except (Exception, guard.Hang) as exc:
            traceback.print_exception(exc)
            print(f"VIOLATION property={mod.ID} replay={args.replay}")
            return 1
        print(f"{mod.ID}: replay passes")
        return 0

    t0 = time.time()
    tmp = os.path.join(
        os.environ.get("TMPDIR", "/tmp"), f"vp-{mod.ID}-{os.getpid()}"
    )
    os.makedirs(tmp)
    shards = []
    ctx = multiprocessing.get_context("fork")
    jobs = []
    for pi, part in enumerate(mod.PARTS):
        total = int((part.quick * QUICK if tier == "quick" else part.thorough) * args.scale)
        k = max(1, min(WORKERS, total // 25))
        for w in range(k):
            n = total // k
            jobs.append((part, (seed * 1000 + pi) * 100 + w, n))
    running = []
    pending = list(enumerate(jobs))
    results = [None] * len(jobs)
    try:
        while pending or running:
            while pending and len(running) < 8:
                i, (part, s, n) = pending.pop(0)
                path = os.path.join(tmp, f"{i}.json")
                p = ctx.Process(
                    target=shard_main, args=(mod, part, tier, s, n, path)
                )
                p.start()
                running.append((i, p, path))
            time.sleep(0.02)
            for item in list(running):
                i, p, path = item
                if not p.is_alive():
                    p.join()
                    running.remove(item)
                    if os.path.exists(path):
                        results[i] = json.load(open(path))
                    else:
                        results[i] = {"error": f"shard {i} died (exit {p.exitcode})"}
    finally:
        for i, p, path in running:
            p.kill()
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    ev = 0
    distinct = set()
    tags = {}
    samples = []
    per_part = {}
    failures = []
    errors = []
    for (part, s, n), r in zip(jobs, results):
        if r.get("error"):
            errors.append((part.name, r["error"]))
        if "evaluations" not in r:
            continue
        ev += r["evaluations"]
        distinct |= {part.name + h for h in r["distinct"]}
        pp = per_part.setdefault(
            part.name, {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}}
        )
        pp["evaluations"] += r["evaluations"]
        for t, c in r["tags"].items():
            pp["classes"][t] = pp["classes"].get(t, 0) + c
        if r["skipped"]:
            pp["not_run_out_of_time"] = pp.get("not_run_out_of_time", 0) + r["skipped"]
        if len([x for x in samples if x["part"] == part.name]) < 2:
            samples += [{"part": part.name, "plan": x} for x in r["samples"][:1]]
        if r["fail"]:
            failures.append((r["fail"]["size"], part.name, s, r["fail"]))
    for name in per_part:
        per_part[name]["distinct_nontrivial"] = sum(
            1 for d in distinct if d.startswith(name) and len(d) == len(name) + 16
        )

    findings = []
    if hasattr(mod, "known") and not failures:
        guard.install()
        listed = {f["key"]: f for f in load_known(mod.ID)}
        for key, text, part_name, plan in mod.known():
            if key in listed:
                findings.append(listed[key]["what_fails"])
            else:
                failures.append(
                    (0, part_name, seed, {"plan": plan, "message": text, "traceback": ""})
                )

    evidence = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples,
            "parts": per_part,
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(common.VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for what in findings:
        print(f"KNOWN-FINDING: property={mod.ID} {what}")
    print(
        f"{mod.ID}: {ev} cases, {len(distinct)} distinct non-trivial, "
        f"{len(failures)} failing shards, {evidence['wall_s']}s"
    )
    if failures:
        failures.sort(key=lambda x: (x[0], x[1], x[2]))
        _, part_name, s, f = failures[0]
        os.makedirs(os.path.join(common.VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(canonical(f["plan"]).encode()).hexdigest()[:10]
        path = os.path.join(common.VERIF, "replays", f"{mod.ID}-{part_name}-{h}.json")
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": mod.ID,
                    "part": part_name,
                    "plan": f["plan"],
                    "message": f["message"],
                },
                fh,
                indent=1,
            )
        print(f["traceback"][-3000:])
        print(f["message"])
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    if errors:
        for name, e in errors:
            print(f"harness error in part {name}:\n{e}", file=sys.stderr)
        return 2
    return 0
