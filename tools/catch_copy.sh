#!/bin/bash
# catch_copy.sh [--all] ID... : like catch.sh, but on a copy of /verif and /repo under
# /tmp/x, for use while something else needs /repo as it is.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
X=/tmp/x; mkdir -p $X/v
all=; [ "$1" = --all ] && { all=1; shift; }
[ -d $X/repo ] || git clone -q /repo $X/repo
git -C $X/repo fetch -q origin && git -C $X/repo reset -q --hard "$(git -C /repo rev-parse HEAD)"
[ -e $X/repo/Cargo.lock ] || cp /opt/vp/Cargo.lock $X/repo/Cargo.lock
(cd $V && tar cf - --exclude=./target --exclude=./mc/target --exclude=./.git --exclude=./evidence . ) | tar xf - -C $X/v
mkdir -p $X/v/evidence
find $X/v/mc -name Cargo.toml -exec sed -i "s#\"/repo\"#\"$X/repo\"#" {} +
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C $X/repo apply "$V/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  if [ -n "$all" ]; then ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])"); else ps=$p; fi
  for q in $ps; do
    s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 $X/v/run.sh $q quick 2>&1); r=$?
    if [ $r = 1 ] && grep -q "VIOLATION property=$q " <<<"$out"; then echo "$id [$p]: $q CAUGHT $(( $(date +%s)-s ))s"; 
    elif [ $r != 0 ]; then echo "$id [$p]: $q ERROR rc=$r $(tail -2 <<<"$out")";
    elif [ $q = $p ]; then echo "$id [$p]: $q missed"; fi
  done
  git -C $X/repo checkout -q -- .
done
