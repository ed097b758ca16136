#!/bin/bash
# testbug.sh [ID]: runs the repository's stable tests on the worktree /tmp/plant/repo, with the
# planted bug applied if one is named (else with the worktree's own changes).
HERE=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/plant/repo
if [ -n "$1" ]; then git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD; git -C $W checkout -q --detach FETCH_HEAD; git -C $W apply "$HERE/seeded/$1/patch.diff" || exit 9; fi
sed 's#/repo$#/tmp/plant/repo#' /opt/vp/env.sh > /tmp/plant/env.sh
sed 's#/opt/vp/env.sh#/tmp/plant/env.sh#; s#/opt/vp/last-test.log#/tmp/plant/last-test.log#; s#/repo\b#/tmp/plant/repo#g' /opt/vp/test.sh > /tmp/plant/test.sh
bash /tmp/plant/test.sh /tmp/plant/t.json > /tmp/plant/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant/t.json'))
p=set(t['passed']); m=[x for x in b['stable'] if x not in p]
print("TESTS", "ok" if not m else "CATCH IT:", len(p), m[:6])
P
[ -n "$1" ] && git -C $W checkout -q -- .
exit 0
