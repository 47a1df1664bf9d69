#!/bin/bash
# sweep.sh [all] BUG...: apply each planted bug to /repo, run the quick check of its property ("all": of every
# property), undo it, and print who reported it
all=; [ "$1" = all ] && { all=1; shift; }
cd "$(dirname "$0")/.." || exit 1
[ $# = 0 ] && set -- $(ls seeded)
for bug; do
  [ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$PWD/seeded/$bug/patch.diff" || { echo "$bug: does not apply"; continue; }
  own=$(python3 -c "import json;print(json.load(open('seeded/$bug/meta.json'))['property'])")
  ids=$own; [ -n "$all" ] && ids=$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  for id in $ids; do
    t=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 880 ./check.sh check $id --tier quick 2>&1); rc=$?
    echo "$bug $id rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
