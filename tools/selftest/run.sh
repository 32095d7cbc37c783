#!/bin/bash
# The engine must take every feasible path: 4 symbolic integers have 75 weak orderings.
set -e; cd "$(dirname "$0")/../.."; make -s -C engine; d=$(mktemp -d); trap "rm -rf $d" EXIT
clang++ -std=c++14 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -Iharness tools/selftest/paths.cpp -o $d/h.bc
$(find engine -name symex -type f | head -1) $d/h.bc --entry _Z8vp_entryv --out $d/r --procs 2 --time 60 --samples 1 > /dev/null
python3 - $d <<'E2'
import json,glob,sys
c=set()
for f in glob.glob(sys.argv[1]+'/r.*'): c|=set(json.load(open(f))['cover'])
print(len(c)-1,'of 75 orderings'); sys.exit(len(c)!=76)
E2
