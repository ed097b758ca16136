#!/usr/bin/env python3
"""det.py OUTDIR SCENARIOS COUNT [REPEATS]: each seed must be one execution."""
import sys, collections
import simlib
out, sc, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
k = int(sys.argv[4]) if len(sys.argv) > 4 else 3
r = simlib.Runner(out)
rs = simlib.sweep(r, [(s, i) for s in sc.split(',') for i in range(1, n + 1) for _ in range(k)], 3600)
d = collections.defaultdict(set)
for x in rs:
    d[x['scenario'], x['seed']].add((x.get('sched'), x.get('error')))
bad = [e for e in d if len(d[e]) > 1]
print(len(d), 'seeds,', len(rs), 'runs; different:', bad[:20])
r.close()
