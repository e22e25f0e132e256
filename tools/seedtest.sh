#!/bin/bash
# seedtest.sh <id> [check...]: applies a planted bug to a scratch copy of /repo, builds, runs the stable tests, the demo and the check of its property.
# FAST=1 skips the stable tests.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/vfseed_$ID; rm -rf "$W"; cp -a /repo "$W"
cd "$W" || exit 1
git apply "$S/patch.diff" || { echo "APPLY FAILED"; rm -rf "$W"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "== $ID ($P)"
VF_REPO=$W /usr/bin/python3 /verif/check.py ${1:-$P} quick 2>&1 | cut -c1-300 | tail -4
rm -rf "$W"
