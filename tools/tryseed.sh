#!/bin/bash
# tryseed.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(python3 /verif/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^failed obligation') $(echo "$out" | grep VIOLATION)"
  [ -n "$V" ] && echo "$out" | head -20 | cut -c1-400
done
