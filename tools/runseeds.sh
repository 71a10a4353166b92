#!/bin/bash
# runs the check of each planted bug's property on /repo with the bug applied; usage: runseeds.sh [ID...]
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || continue
  out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(echo "$out" | grep -c 'failed obligation') failed obligations; $(echo "$out" | grep VIOLATION) | $(echo "$out" | grep -A1 'failing input' | tail -1 | cut -c1-150)"
done
