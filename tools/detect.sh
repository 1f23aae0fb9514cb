#!/bin/bash
# detect.sh SEED [CHECK...]: applies a planted bug to /repo, runs the check of its property (or the given ones), undoes it.
cd /verif
s=$1; shift
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
for c in ${@:-$p}; do
  t=$SECONDS
  out=$(./check.sh $c quick 2>&1); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$c ")
  echo "$s: check $c exit $rc violations $v ($((SECONDS-t)) s) $(echo "$out" | grep -A1 '^VIOLATION' | sed -n 2p | cut -c1-160)"
  [ $rc = 1 ] || echo "$out" | tail -5
done
