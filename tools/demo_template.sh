#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -fopenmp -w -Iinclude -Isrc -I/usr/include/eigen3 $CXXEXTRA "$d/demo.cpp" -Wl,--start-group _build/lib/*.a -Wl,--end-group -o "$t/demo" || exit 2
cd "$t"; timeout 120 ./demo
