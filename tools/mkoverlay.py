#!/usr/bin/env python3
"""Write the `go build -overlay` file: mounts /verif/sim/<pkg>/*.go at <repo>/internal/zzsim/<pkg>/
and /verif/sim/harness/*_test.go at <repo>/cmd/."""
import json, os, sys
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim')

def overlay(repo, extra=None):
    rep = {}
    for pkg in sorted(os.listdir(SIM)):
        d = os.path.join(SIM, pkg)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if not (f.endswith('.go') or f.endswith('.s')):
                continue
            if pkg == 'harness':
                rep[os.path.join(repo, 'cmd', 'zz_' + f)] = os.path.join(d, f)
            else:
                rep[os.path.join(repo, 'internal', 'zzsim', pkg, f)] = os.path.join(d, f)
    if extra:
        rep.update(extra)
    return {'Replace': rep}

if __name__ == '__main__':
    json.dump(overlay(sys.argv[1] if len(sys.argv) > 1 else '/repo'), open(sys.argv[2], 'w'), indent=1)
