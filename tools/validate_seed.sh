#!/bin/bash
# usage: validate_seed.sh ID [notests]: checks a planted bug in a scratch copy of /repo: demo passes without, fails with the patch; the repository's tests pass with it
ID=$1; S=$(cd "$(dirname "$0")/../seeded/$ID" && pwd); W=$(mktemp -d /tmp/plant.XXXXXX)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cp -a /repo "$W/repo"; mkdir "$W/seed"; cp "$S"/* "$W/seed/"; rm -f "$W/seed/patch.diff" "$W/seed/meta.json"
cd "$W/repo" || exit 2
timeout 300 bash "$W/seed/demo.sh" > "$W/out0" 2>&1; A=$?
git apply "$S/patch.diff" || echo "$ID: DOES NOT APPLY"
timeout 300 bash "$W/seed/demo.sh" > "$W/out1" 2>&1; B=$?
T=skipped
if [ -z "$2" ]; then
  timeout 900 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider --timeout=300 --ignore=flavio/physics/dileptons flavio > "$W/tests" 2>&1
  T=$(tail -1 "$W/tests"); grep ^FAILED "$W/tests"
fi
echo "$ID: demo unpatched=$A (want 0) patched=$B (want nonzero) tests: $T"
[ $A != 0 ] && tail -3 "$W/out0"; [ $B = 0 ] && tail -3 "$W/out1"
rm -rf "$W"
