#!/bin/bash
# testseed.sh ID...: demo on clean tree, demo + check with the patch applied; undoes the patch.
cd /verif
for b in "$@"; do
  bash seeded/$b/demo.sh > /tmp/ts.o 2>&1; c=$?
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b patch fails"; continue; }
  bash seeded/$b/demo.sh > /tmp/ts.o2 2>&1; d=$?
  P=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  ./check $P quick > /tmp/ts.o3 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$b ($P) demo clean=$c bug=$d check=$k $(grep -m1 '^\[' /tmp/ts.o3 | cut -c1-160)"
  [ $c = 0 ] || tail -5 /tmp/ts.o
  [ $k = 1 ] || tail -5 /tmp/ts.o3
done
