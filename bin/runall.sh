#!/bin/bash
# runall.sh TIER ID...: runs checks and prints one line each
T=$1; shift
for i in "$@"; do s=$(date +%s.%N); out=$(./check $i $T 2>&1); rc=$?; e=$(date +%s.%N)
printf "%s rc=%s %.1fs %s\n" $i $rc $(echo "$e-$s"|bc) "$(echo "$out" | tail -${LINES_OUT:-3} | cut -c1-${W:-300})"; done
