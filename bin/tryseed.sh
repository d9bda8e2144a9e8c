#!/bin/bash
# tryseed.sh ID...: applies each seeded change, runs its property's quick check, restores /repo (development helper).
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  out=$(cd /verif && bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(echo "$out" | grep -E '^VIOLATION' )"
  [ $rc -eq 1 ] && echo "$out" | grep -B3 '^VIOLATION' | head -3 | cut -c1-300
done
