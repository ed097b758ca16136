#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property by simulation.

Builds the simulator from the repository's working tree, runs seeded simulations of the
property's scenarios, and reports the first violation that known_findings.json does not list,
with a minimised replay file. Exit 0: held on everything explored; 1: violated; 2: no answer.
"""
import collections, itertools, json, os, shutil, sys, tempfile, time
import simlib
from plan import PLAN, LEVEL_RULE

VERIF = simlib.VERIF
REAL = ["blnk (all of the repository's packages, HTTP router, workers, processors)", "asynq client and server", "go-redis client", "database/sql", "redis server commands (miniredis)", "Go timers, channels, contexts, mutexes (virtual clock)"]
STUB = ["PostgreSQL (in-process engine with MVCC, row locks, READ COMMITTED, the repository's own migrations)", "network between nodes, Redis, database and webhook receivers (in-memory, with faults)", "outside HTTP receivers", "TypeSense (not configured)", "process crash (goroutines of the node are stopped for ever at a choice point; its memory is gone)"]


def findings(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def schedule(mix, base):
    """An endless, fixed sequence of (scenario, seed), scenarios in proportion to their weights."""
    gens = {s: simlib.seeds(base, s) for s, _ in mix}
    acc = {s: 0.0 for s, _ in mix}
    total = float(sum(w for _, w in mix))
    while True:
        for s, w in mix:
            acc[s] += w / total
        s = max(mix, key=lambda e: acc[e[0]])[0]
        acc[s] -= 1
        yield s, next(gens[s])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    plan = PLAN[prop]
    work = tempfile.mkdtemp(prefix="simbuild-")
    runner = None
    try:
        try:
            simlib.build(work)
        except simlib.Machinery as e:
            print(e)
            return 2
        runner = simlib.Runner(work)
        if "--replay" in sys.argv:
            return replay(runner, prop, sys.argv[sys.argv.index("--replay") + 1])
        return check(runner, prop, plan, seed, tier, t0)
    finally:
        if runner:
            runner.close()
        shutil.rmtree(work, ignore_errors=True)


def replay(runner, prop, path):
    with open(path) as f:
        rep = json.load(f)
    log = os.environ.get("SIM_LOG")
    r = runner.run(rep["scenario"], rep["seed"], replay=rep if rep.get("trace") is not None else None, log=log)
    if r.get("error"):
        print("the replay failed:", r["error"])
        return 2
    for v in r["violations"]:
        print("%s [%s] %s" % (v["property"], v["key"], v["message"]))
    if any(v["property"] == prop and v["key"] == rep["key"] for v in r["violations"]):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the replay does not violate", prop)
    return 0


def check(runner, prop, plan, seed, tier, t0):
    listed = findings(prop)
    known = {e["key"] for e in listed}
    runs = plan["runs"] if tier == "quick" else plan["runs"] * 40
    cap = plan.get("cap", 75) if tier == "quick" else 2400
    runs = int(os.environ.get("SIM_RUNS", runs))
    mix = plan["mix"]
    jobs = [(s, x) for s, x in itertools.islice(schedule(mix, seed), runs)]
    unrepro = []
    deadline = time.time() + cap
    results, found = [], None
    done = 0

    def bad(r):
        return [v for v in r["violations"] if v["property"] == prop and v["key"] not in known]

    while done < len(jobs) and time.time() < deadline and found is None:
        rest = jobs[done:]
        part = simlib.sweep(runner, iter(rest), deadline - time.time(), stop=lambda r: bool(bad(r)))
        results += part
        ran = {(r["scenario"], r["seed"]) for r in part}
        done += sum(1 for j in rest if j in ran)
        # jobs are taken in order: what was skipped at a stop is the tail
        hits = [r for r in part if bad(r)]
        if not hits:
            if len(part) == 0 or done >= len(jobs):
                break
            continue
        hits.sort(key=lambda r: jobs.index((r["scenario"], r["seed"])))
        for h in hits:
            again = runner.run(h["scenario"], h["seed"])
            keys = {v["key"] for v in bad(again)} & {v["key"] for v in bad(h)}
            if keys and not again.get("error"):
                found = (again, sorted(keys)[0])
                break
            unrepro.append({"scenario": h["scenario"], "seed": h["seed"], "keys": [v["key"] for v in bad(h)]})
    sweep_s = time.time() - t0
    ok = [r for r in results if not r.get("error")]
    errors = [r for r in results if r.get("error")]
    viol = []
    rc = 0
    if found:
        r, key = found
        rep = {"scenario": r["scenario"], "seed": r["seed"], "property": prop, "key": key, "trace": r.get("trace") or {}}
        trace, last, tries = simlib.minimise(runner, rep, prop, key, 90 if tier == "quick" else 400)
        if last is not None:
            rep["trace"] = trace
            r = last
        msg = next(v["message"] for v in r["violations"] if v["property"] == prop and v["key"] == key)
        rep["message"] = msg
        rep["choices"] = sum(len(v) for v in rep["trace"].values())
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (prop, r["scenario"], r["seed"]))
        with open(path, "w") as f:
            json.dump(rep, f)
        rr = runner.run(rep["scenario"], rep["seed"], replay=rep, log=path[:-5] + ".log")
        same = any(v["property"] == prop and v["key"] == key for v in rr["violations"])
        print("%s [%s] %s" % (prop, key, msg[:3000]))
        print("scenario %s seed %d, %d choices left after %d trial runs; the log of the replay is beside the file" % (rep["scenario"], rep["seed"], rep["choices"], tries))
        if same:
            viol.append({"key": key, "scenario": rep["scenario"], "seed": rep["seed"], "message": msg[:2000], "replay": path, "choices": rep["choices"]})
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
            rc = 1
        else:
            # the seed alone is the replay: it has reproduced once already
            rep["trace"], rep["choices"] = None, 0
            with open(path, "w") as f:
                json.dump(rep, f)
            rr = runner.run(rep["scenario"], rep["seed"])
            if any(v["property"] == prop and v["key"] == key for v in rr["violations"]):
                viol.append({"key": key, "scenario": rep["scenario"], "seed": rep["seed"], "message": msg[:2000], "replay": path})
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
                rc = 1
            else:
                print("the violation did not reproduce")
                rc = 2
    if rc == 0 and (not ok or len(errors) * 4 > len(results)):
        print("the simulator failed in %d of %d runs: %s" % (len(errors), len(results), errors[0]["error"] if errors else "no run"))
        rc = 2
    for e in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    evidence(prop, plan, seed, tier, t0, sweep_s, jobs, ok, errors, unrepro, viol, known)
    print("%s: %d runs (%d failed to run), %d schedules, %.0f s of simulated time, %.1f s" % (prop, len(results), len(errors), len({r.get("sched") for r in ok}), sum(r.get("vtime", 0) for r in ok), time.time() - t0))
    return rc


def evidence(prop, plan, seed, tier, t0, sweep_s, jobs, ok, errors, unrepro, viol, known):
    tot = collections.Counter
    faults, counters, ops, per = tot(), tot(), tot(), tot()
    for r in ok:
        faults.update(r.get("faults") or {})
        counters.update(r.get("counters") or {})
        ops.update(r.get("ops") or {})
        per[r["scenario"]] += 1
    need = plan.get("needs") or []
    nontrivial = {r["sched"] for r in ok if all((r.get("counters") or {}).get(k, 0) for k in need[:1]) and r.get("steps", 0) > 50}
    knownhits = tot(v["key"] for r in ok for v in r["violations"] if v["property"] == prop and v["key"] in known)
    other = tot("%s [%s]" % (v["property"], v["key"]) for r in ok for v in r["violations"] if v["property"] != prop)
    samples = [{"scenario": r["scenario"], "seed": r["seed"], "steps": r["steps"], "virtual_s": round(r["vtime"], 1), "schedule": r["sched"], "final_state": r["state"], "faults": r.get("faults"), "counters": r.get("counters")} for r in ok[:3]]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(ok), "distinct_nontrivial": len(nontrivial),
            "rule": LEVEL_RULE + (" Non-trivial: more than 50 scheduler steps and the counter '%s' above zero; distinct: by the hash of the whole schedule (every scheduling decision, fault and operation in order)." % need[0] if need else " Non-trivial: more than 50 scheduler steps; distinct: by the hash of the whole schedule."),
            "samples": samples,
            "runs_per_scenario": dict(per), "runs_planned": len(jobs),
            "runs_per_hour": round(len(ok) * 3600 / max(sweep_s, 1)), "seeds_per_hour": round(len({(r["scenario"], r["seed"]) for r in ok}) * 3600 / max(sweep_s, 1)),
            "simulated_seconds": round(sum(r.get("vtime", 0) for r in ok)), "scheduler_steps": sum(r.get("steps", 0) for r in ok),
            "distinct_schedules": len({r.get("sched") for r in ok}), "distinct_final_states": len({r.get("state") for r in ok}),
            "faults_injected": dict(faults), "fault_free_runs": sum(1 for r in ok if not r.get("faults")),
            "intercepted_operations": dict(ops), "counters": dict(sorted(counters.items())),
            "known_finding_hits": dict(knownhits), "unreproduced": unrepro, "failed_runs": [{"scenario": r["scenario"], "seed": r["seed"], "error": r["error"][:300]} for r in errors[:5]],
            "other_properties_seen_violated": dict(other),
            "real_code": REAL, "stubs": STUB,
        },
        "wall_s": round(wall, 1),
        "assumptions": ["PostgreSQL at READ COMMITTED and Redis behave as the in-process stand-ins do", "preemption happens at intercepted operations: database, Redis and HTTP operations, lock waits, timers and goroutine starts"],
        "violations": viol,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
