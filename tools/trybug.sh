#!/bin/bash
# trybug.sh ID...: applies each planted bug to /repo, runs the quick check of its
# property, and undoes it. Says whether the check saw it.
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick /verif/run_check.sh "$p" quick >/tmp/trybug.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i ($p): exit $rc $(grep -m1 -E '^VIOLATION' /tmp/trybug.out)"
  grep -m2 -iE 'oracle|detail' /tmp/trybug.out | cut -c1-220
  [ $rc = 1 ] || tail -5 /tmp/trybug.out
done
