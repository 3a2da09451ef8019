#!/bin/bash
# one.sh HARNESS MODE CASE [SEED]: one case with the writer's own log
d=$(dirname "$0")
exe=$(ls -t $d/../.cache/bin/${V:-asan}/$1.*|head -1)
ASAN_OPTIONS=detect_leaks=0 VERIF_INFO=1 stdbuf -o0 timeout 600 $exe --mode $2 --seed ${4:-1} --from $3 --to $(($3+1)) 2>&1 | grep -v '"stats"' | cut -c1-${W:-220} | tail -${L:-60}
