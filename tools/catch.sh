#!/bin/bash
# Not part of any check. catch.sh [COUNT] [ids...] : tries every seeded bug against the check of its property (in /tmp/wt)
S=${SEEDDIR:-/verif/seeded}; N=${1:-160}; shift
for d in ${*:-$(ls $S)}; do
 d=$(basename $d); c=$(python3 -c "import json;print(json.load(open('$S/$d/meta.json'))['property'])")
 git -C /tmp/wt checkout -q . ; git -C /tmp/wt apply $S/$d/patch.diff || continue
 echo "== $d $c: $(bash /verif/tools/try.sh $c $N 2>&1 | grep -a "viol-seeds\|^ *[0-9]* [a-z_]*$" | tr '\n' ' ')"
done
git -C /tmp/wt checkout -q .
