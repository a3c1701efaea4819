#!/bin/bash
# catch.sh [-t SECS] BUG... : does the check of the bug's property report the planted bug?
# Works on a copy of /repo, which the driver is told about, so that several can run at once.
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  c=/tmp/catch-$b; cp -a /repo $c
  git -C $c apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; rm -rf "$c"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${SEED:-1} bash /verif/run.sh check $p ${TIER:-quick} $c 2>&1); rc=$?
  echo "$b rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION <<<"$out" | head -1)"
  [ $rc = 1 ] || tail -3 <<<"$out"
  rm -rf "$c"
done
