#!/bin/bash
# apply every planted bug in turn and run the check of its property (and undo it)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p exit=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v VIOLATION | cut -c1-230 | tr '\n' '|') $(echo "$out" | grep '^VIOLATION' | grep -o 'no-failing.*')"
done
