#!/bin/bash
# Builds the demonstration against the library built in the current directory (/repo) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
LIB=$(dirname "$(find "$PWD/_build" -name 'libTVM*.so' | head -1)")
L=$(basename "$(find "$LIB" -maxdepth 1 -name 'libTVM*.so' | head -1)" .so)
INC=$(find "$PWD/_build" -type d -path '*include*' -name tvm -printf '-I%h ')
g++ -std=c++17 -O0 -w ${DEMO_FLAGS} -I"$D" -I"$PWD/include" $INC -I"$PWD/3rd-party/mpark" -I"$PWD/3rd-party" -isystem /usr/include/eigen3 \
  "$D/demo.cpp" -L"$LIB" -l${L#lib} -Wl,-rpath,"$LIB" -pthread -o "$T/demo" || { rm -rf "$T"; exit 2; }
timeout 120 "$T/demo"
r=$?
rm -rf "$T"
exit $r
