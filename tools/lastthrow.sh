#!/bin/bash
# lastthrow.sh N exe args...: stacks of the last N exceptions thrown
n=$1; shift
printf 'set breakpoint pending on\ncatch throw\ncommands\nbt 14\nc\nend\nrun\n' > /tmp/gdbc.$$
ASAN_OPTIONS=detect_leaks=0 VERIF_ASSERT_CONTINUE=1 timeout 600 gdb -batch -x /tmp/gdbc.$$ --args "$@" 2>&1 | grep -v "runtime error" | grep "^#\|^Catchpoint 1" | cut -c1-200 | tac | awk -v n=$n '/^Catchpoint/{c++} {print} c>=n{exit}' | tac
rm -f /tmp/gdbc.$$
