#!/bin/bash
# usage: try_seed.sh ID...: applies a planted bug to /repo, runs the quick check of its property, undoes it
cd "$(dirname "$0")/.." || exit 2
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py $P --no-evidence > /tmp/try.$i 2>&1; R=$?
  git -C /repo checkout -q -- .
  echo "$i $P exit=$R $(grep -c ^VIOLATION /tmp/try.$i) $(grep -m2 -v '^VIOLATION\|^ *[0-9.]*s \|^[{}]' /tmp/try.$i | cut -c1-150 | tr '\n' '|')"
done
