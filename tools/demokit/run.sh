#!/bin/bash
# Runs demo_test.go (beside this file) inside the package named in its first line ("// in: DIR").
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$REPO"
W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
PKG=$(sed -n '1s,^// in: ,,p' "$D/demo_test.go")
python3 - "$D" "$REPO" "$PKG" "$W/overlay.json" <<'PY'
import json, os, sys
d, repo, pkg, out = sys.argv[1:]
rep = {os.path.join(repo, pkg, "zz_demo_test.go"): os.path.join(d, "demo_test.go"),
       os.path.join(repo, "internal/zzkit/kit.go"): os.path.join(d, "kit.go")}
for f in os.listdir(os.path.join(d, "pgsim")):
    if f.endswith(".go"):
        rep[os.path.join(repo, "internal/zzkit/pgsim", f)] = os.path.join(d, "pgsim", f)
json.dump({"Replace": rep}, open(out, "w"))
PY
REPO_SQL="$REPO/sql" go test $V -vet=off -overlay "$W/overlay.json" -count=1 -timeout 200s -run '^TestDemo$' "./$PKG"
