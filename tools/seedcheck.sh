#!/bin/sh
# seedcheck.sh [ID ...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY"; continue; }
  VERIF_SEED=${SEED:-1} bin/check $p > /tmp/seedcheck.$id 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/seedcheck.$id)"
done
