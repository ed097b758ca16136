#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh OUTDIR [REPO]
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
python3 "$HERE/tools/mkoverlay.py" "$REPO" "$OUT/overlay.json"
gcc -O1 -shared -fPIC -o "$OUT/preload.so" "$HERE/sim/preload/preload.c" -ldl
cd "$REPO"
go test -c -vet=off -overlay "$OUT/overlay.json" -ldflags=-checklinkname=0 -o "$OUT/sim.test" ./cmd
