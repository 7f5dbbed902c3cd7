#!/bin/bash
# Not part of any check. plant.sh ID PROPERTY "needs" "what it breaks" : turns the change in /tmp/wt (a worktree of /repo)
# and /tmp/demo.cpp into /verif/seeded/ID after confirming: applies, stable tests pass, demo 0 on /repo and nonzero with it.
set -e
ID=$1; PROP=$2; NEEDS=$3; BREAKS=$4
S=${SEEDDIR:-/verif/seeded}/$ID
mkdir -p $S
git -C /tmp/wt diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "empty diff"; exit 1; }
git -C /repo apply --check $S/patch.diff
rm -rf $S/matrix; cp -r /verif/matrix $S/matrix
cp /verif/tools/demo/drive.h /verif/tools/demo/demo.sh $S/
cp /tmp/demo.cpp $S/demo.cpp
[ -n "$DEMOFLAGS" ] && sed -i "s/^set -u/set -u\nDEMOFLAGS='$DEMOFLAGS'/" $S/demo.sh
python3 - "$S" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /repo && bash $S/demo.sh >/tmp/demo.out 2>&1; r=$?; tail -n 3 /tmp/demo.out | cut -c1-200; exit $r) && a=0 || a=$?
(cd /tmp/wt && bash $S/demo.sh >/tmp/demo.out 2>&1; r=$?; tail -n 3 /tmp/demo.out | cut -c1-200; exit $r) && b=0 || b=$?
echo "demo clean=$a patched=$b"
[ $a = 0 ] && [ $b != 0 ]
