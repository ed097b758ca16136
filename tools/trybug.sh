#!/bin/bash
# trybug.sh ID [PROPERTY]: runs the property's check on the worktree /tmp/plant/repo with the planted
# bug applied, and undoes it.
HERE=$(cd "$(dirname "$0")/.." && pwd); ID=$1; W=/tmp/plant/repo
P=${2:-$(python3 -c "import json,sys;print(json.load(open('$HERE/seeded/$ID/meta.json'))['property'])")}
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD; git -C $W checkout -q --detach FETCH_HEAD
git -C $W apply "$HERE/seeded/$ID/patch.diff" || exit 9
SIM_REPO=$W python3 "$HERE/tools/check.py" "$P" > /tmp/try.$ID.$P 2>&1; R=$?
git -C $W checkout -q -- .
echo "$ID $P exit $R: $(grep -v KNOWN /tmp/try.$ID.$P | tail -6 | cut -c1-500)"
