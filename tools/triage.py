#!/usr/bin/env python3
"""triage.py OUTDIR SCENARIO COUNT [BASE]: runs seeds 1..COUNT and summarises what fails."""
import collections, json, re, sys, time
import simlib
out, sc, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
r = simlib.Runner(out)
t0 = time.time()
res = simlib.sweep(r, ((s, i) for i in range(base, base + n) for s in sc.split(",")), 3600)
by = collections.defaultdict(list)
errs = collections.defaultdict(list)
for x in res:
    if x.get("error"):
        errs[re.sub(r"[0-9a-f-]{20,}|\d+","#",x["error"])[:300]].append(x["seed"])
    for v in x["violations"]:
        by[v["property"] + " / " + v["key"]].append((x["seed"], v["message"]))
print("%d runs in %.1f s; %d steps, %.0f s virtual; %d schedules, %d states" % (len(res), time.time() - t0, sum(x.get("steps", 0) for x in res), sum(x.get("vtime", 0) for x in res), len({x.get("sched") for x in res}), len({x.get("state") for x in res})))
tot = collections.Counter()
for x in res:
    tot.update(x.get("faults") or {})
print("faults", dict(tot))
tot = collections.Counter()
for x in res:
    tot.update(x.get("counters") or {})
print("counters", dict(sorted(tot.items())))
for k, l in sorted(errs.items(), key=lambda e: -len(e[1]))[:6]:
    print("ERROR x%d seeds %s: %s" % (len(l), sorted(l)[:6], k))
for k, l in sorted(by.items()):
    l.sort()
    print("%-60s x%d seeds %s\n      e.g. %s" % (k, len(l), [s for s, _ in l[:8]], l[0][1][:600]))
r.close()
