#!/bin/bash
# Not part of any check. try.sh CHECK COUNT : builds the simulator from /tmp/wt and runs COUNT quick seeds of CHECK
set -e
make -s -C /verif/sim -j8 REPO=${WT:-/tmp/wt} OUT=/tmp/wtbuild${WT//\//_} >/dev/null
for c in $1; do B=/tmp/wtbuild${WT//\//_}/simcheck H=${H:-2} W=${W:-260} bash /verif/tools/r.sh $c ${2:-96}; done
