#!/bin/bash
# dev.sh VARIANT HARNESS MODE FROM TO [SEED]: run cases on 8 processes, print what they report
d=$(dirname "$0"); v=$1 h=$2 m=$3 f=$4 t=$5 s=${6:-1}
exe=$(python3 $d/build.py $v $h | tail -1 | awk '{print $2}')
[ -x "$exe" ] || { python3 $d/build.py $v $h | grep -A3 "error:" | head -30; exit 1; }
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0 UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=1 TSAN_OPTIONS=halt_on_error=0
o=$(mktemp -d /dev/shm/dev-XXXXXX)
n=8
for i in 0 1 2 3 4 5 6 7; do
  mkdir $o/s$i
  ( timeout ${DEV_TIMEOUT:-240} $exe --mode $m --seed $s --from $((f+i)) --to $t --stride 8 --out $o/o$i --scratch $o/s$i --tier ${TIER:-quick} >$o/e$i 2>&1; echo "worker $i rc=$?" >>$o/e$i ) &
done
wait
cat $o/o? | cut -c1-${W:-400} | grep violation
grep -h -A${A:-12} "ERROR: \|runtime error\|VERIF-ASSERT\|terminate called" $o/e? | head -${L:-40}
grep -h "rc=[1-9]" $o/e?
cat $o/o? | grep '"stats"' | python3 -c "
import sys,json
c={}
for l in sys.stdin:
    for k,v in json.loads(l)['counters'].items(): c[k]=max(c.get(k,0),v) if k.startswith('max_') else c.get(k,0)+v
print(c)"
rm -rf $o
