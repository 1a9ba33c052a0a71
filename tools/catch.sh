#!/bin/bash
# catch.sh [--all] ID... : applies each planted bug to /repo, runs the check of
# its property (--all: every check), and undoes it.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"; cd $V
all=; [ "$1" = --all ] && { all=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  if [ -n "$all" ]; then ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); else ps=$p; fi
  for q in $ps; do
    s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $q quick 2>&1); r=$?
    if [ $r = 1 ] && grep -q "VIOLATION property=$q " <<<"$out"; then echo "$id [$p]: $q CAUGHT $(( $(date +%s)-s ))s"; 
    elif [ $r != 0 ]; then echo "$id [$p]: $q ERROR rc=$r $(tail -2 <<<"$out")";
    elif [ $q = $p ]; then echo "$id [$p]: $q missed"; fi
  done
  git -C /repo checkout -q -- .
done
