#!/bin/bash
# bt.sh PROP INDEX [breakpoint]: minimise one violating run and print the stack of the failure (debugging aid)
cd /verif; B=${SIMBIN:-build/problem}
$B min $1 $2 /tmp/dbg.trace $WORLD | grep '^op\|^message\|^class' | cut -c1-400
gdb -batch -ex "set breakpoint pending on" -ex "set follow-fork-mode child" -ex "break ${3:-__assert_fail}" -ex run -ex bt --args $B replay /tmp/dbg.trace 2>&1 | grep "^#" | grep -v "Eigen::\|libc\|runForked\|runHere" | sed 's/0x[0-9a-f]* in//' | cut -c1-180 | head -${4:-18}
