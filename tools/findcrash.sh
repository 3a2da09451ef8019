#!/bin/bash
# findcrash.sh HARNESS MODE FROM TO [SEED] [VARIANT]: one process per case, names the cases that die
d=$(dirname "$0")
exe=$(ls -t $d/../.cache/bin/${6:-asan}/$1.*|head -1)
export ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=halt_on_error=1
seq $3 $4 | xargs -P 8 -I{} sh -c "timeout 300 $exe --mode $2 --seed ${5:-1} --from {} --to \$(({}+1)) >/dev/null 2>&1 || echo case {} rc=\$?"
