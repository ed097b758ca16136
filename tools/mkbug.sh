#!/bin/bash
# mkbug.sh ID PROPERTY: makes /verif/seeded/ID from the worktree /tmp/plant/repo (its diff against
# HEAD) and /tmp/plant/demo_test.go; checks that the demonstration passes without and fails with it.
set -e
ID=$1; PROP=$2; HERE=$(cd "$(dirname "$0")/.." && pwd); D=$HERE/seeded/$ID
mkdir -p "$D/pgsim"
cp "$HERE"/sim/pgsim/{ast,dml,eval,exec,lex,parse,pl,session,store,val}.go "$D/pgsim/"
cp "$HERE/tools/demokit/kit.go" "$D/kit.go"
cp "$HERE/tools/demokit/run.sh" "$D/demo.sh"
cp /tmp/plant/demo_test.go "$D/demo_test.go"
git -C /tmp/plant/repo diff > "$D/patch.diff"
cd /tmp/plant/repo
echo "== with the change"; if bash "$D/demo.sh" > /tmp/plant/with.log 2>&1; then echo "DEMO PASSES WITH THE CHANGE"; tail -5 /tmp/plant/with.log; exit 1; fi
grep -v "^time=\|level=" /tmp/plant/with.log | tail -12 | cut -c1-300
git -C /tmp/plant/repo stash -q
echo "== without"; R=0; bash "$D/demo.sh" > /tmp/plant/without.log 2>&1 || R=1
git -C /tmp/plant/repo stash pop -q
tail -3 /tmp/plant/without.log | cut -c1-300
[ $R = 0 ] || { echo "DEMO FAILS WITHOUT THE CHANGE"; tail -30 /tmp/plant/without.log | cut -c1-300; exit 1; }
