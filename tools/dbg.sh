#!/bin/bash
# dbg.sh PROP INDEX [lines]: minimise one violating run and show where it fails (debugging aid)
export SIM_PC=1; cd /verif; B=${SIMBIN:-build/problem}
$B min $1 $2 /tmp/dbg.trace $WORLD | grep -v '^cfg\|^$' | cut -c1-700
$B replay /tmp/dbg.trace -v > /tmp/dbg.out 2>&1
grep -a '^    [^l]\|Assert\|terminate' /tmp/dbg.out | tail -${3:-6} | cut -c1-500
grep -ao '#[0-9]* 0x[0-9a-f]*' /tmp/dbg.out | awk '{print $2}' | head -16 | xargs -r addr2line -Cfpe $B | grep -v "Eigen::\|^??" | cut -c1-200
true
