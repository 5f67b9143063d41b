#!/bin/bash
# tryseed.sh ID [checks...] : run checks against a planted bug in a scratch copy
id=$1; shift
d=$(mktemp -d /tmp/ts-XXXX); cp -a /repo/src "$d/src"; (cd "$d" && patch -p1 -s < /verif/seeded/$id/patch.diff) || exit 9
[ $# = 0 ] && set -- $(seq -f 'C%02g' 1 35)
for c in "$@"; do python3-vt /verif/tools/check.py $c --root $d/src --evidence $d/ev > $d/out 2>&1; rc=$?; { [ $rc = 0 ] && ! grep -qE "UNDECIDED|INCOMPLETE" $d/out; } || { echo "$c rc=$rc"; grep -m2 -E "VIOLATION|UNDECIDED|NO ANSWER|violated" $d/out | cut -c1-300; }; done
rm -rf "$d"
