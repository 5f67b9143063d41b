#!/bin/bash
# run every check on /repo as it is; print the ones that are not quiet
cd "$(dirname "$0")/.."
for i in $(seq -w 1 35); do echo C$i; done | xargs -P8 -I{} bash -c 'o=$(python3-vt tools/check.py {} --evidence /tmp/ev.$$ 2>&1); rc=$?; if [ $rc != 0 ] || grep -qE "UNDECIDED|INCOMPLETE" <<<"$o"; then echo "{} rc=$rc"; echo "$o" | cut -c1-300 | tail -${N:-4}; fi'
rm -rf /tmp/ev.*
