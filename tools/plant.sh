#!/bin/bash
# plant.sh ID [nodemo|nocheck]: the demo on the clean tree, then patch, demo, the property's check, and undo.
set -u
ROOT=$(cd "$(dirname "$0")/.." && pwd)
D=$ROOT/seeded/$1
P=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$D/meta.json")
MODE=${2:-}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
cd /repo
if [ "$MODE" != nodemo ]; then
  bash "$D/demo.sh" >/tmp/plant.$1.clean 2>&1; c=$?
fi
git -C /repo apply "$D/patch.diff" || exit 1
if [ "$MODE" != nodemo ]; then
  bash "$D/demo.sh" >/tmp/plant.$1.bug 2>&1; b=$?
  echo "$1 demo clean=$c bug=$b: $(grep -h -A1 panicked /tmp/plant.$1.bug | head -3 | cut -c1-300)"
  grep -h "^error" -A5 /tmp/plant.$1.clean | cut -c1-200 | head -20
fi
if [ "$MODE" != nocheck ]; then
  for seed in ${SEEDS:-1}; do
  VERIF_SEED=$seed "$ROOT/check.sh" $P --seed $seed >/tmp/plant.$1.check 2>&1; k=$?
  echo "$1 check $P seed $seed rc=$k: $(grep -h VIOLATION /tmp/plant.$1.check | head -2) $(grep -h 'evaluations' /tmp/plant.$1.check)"
  done
fi
git -C /repo checkout -- .
