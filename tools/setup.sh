#!/bin/bash
# Warms the Go build cache, so that each check only recompiles what changed.
set -e
cd "$(dirname "$0")/.."
D=$(mktemp -d /tmp/simsetup-XXXXXX)
trap 'rm -rf "$D"' EXIT
bash tools/build.sh "$D"
