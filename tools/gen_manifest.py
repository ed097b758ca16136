#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os
from plan import PLAN, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P28": "a pure function of the request and the stored rows; no schedule, clock or fault for a simulator to vary",
    "P30": "pure arithmetic on the request; no schedule, clock or fault for a simulator to vary",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in PLAN:
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + NOTES.get(p, "history checked against a reference model"),
                       "level": "exploration",
                       "level_note": "Held on every simulated run explored (sampled, not exhaustive). Real service code; PostgreSQL is an in-process stand-in at READ COMMITTED, Redis is miniredis, the network is in memory. Preemption at database, Redis, HTTP, lock, timer and goroutine-start points only."})
    elif p not in NA:
        NA[p] = "no check is registered yet"
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)],
           "notes": "No hooks in /repo: the seams are dialers, database/sql drivers, transports and an overlay that adds test files and internal/zzsim packages at build time."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
