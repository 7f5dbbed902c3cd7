# usage r.sh CHECK COUNT [thorough] : parallel over 8 procs, summary
C=$1; N=$2; T=${3:-0}; B=${B:-/verif/build/rel/simcheck}
per=$(( (N+7)/8 ))
rm -f /tmp/out_$$_$C.*
for p in 0 1 2 3 4 5 6 7; do $B run $C ${BASE:-1} $((p*per)) $per $T 900 >/tmp/out_$$_$C.$p 2>/tmp/err_$$_$C.$p & done; wait
cat /tmp/out_$$_$C.[0-7] | grep -a "@@VIOL\|@@NONDET" | sort | uniq | cut -c1-${W:-400} | head -${H:-12}
echo viol-seeds $(cat /tmp/out_$$_$C.[0-7] | grep -a "@@VIOL" | awk '{print $2}' | sort -u | wc -l) done $(cat /tmp/out_$$_$C.[0-7] | grep -ac "@@DONE") ends $(cat /tmp/out_$$_$C.[0-7] | grep -ac "@@END")
cat /tmp/out_$$_$C.[0-7] | grep -a "@@SUM" | awk '{r+=$3;n+=$5;s+=$7;if($9>w)w=$9} END{print "runs",r,"nontriv",n,"simsec",s,"wall",w}'
cat /tmp/out_$$_$C.[0-7] | grep -a "@@VIOL" | awk '{print $3}' | sort | uniq -c
cat /tmp/out_$$_$C.[0-7] | grep -a "@@CNT" | awk '{c[$2]+=$3} END{for(k in c) printf "%s=%d ",k,c[k]; print ""}'
rm -f /tmp/out_$$_$C.* /tmp/err_$$_$C.*
