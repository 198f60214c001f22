#!/bin/bash
# tools/try.sh ID...: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash bin/check "$p" >/tmp/try.out 2>/tmp/try.err; c=$?
  git -C /repo checkout -q -- .
  echo "$b: exit $c, $(( $(date +%s) - s )) s: $(grep -h VIOLATION /tmp/try.out | head -3 | tr '\n' ' ') $(grep -h '^  ' /tmp/try.out | head -1 | cut -c1-200)"
done
