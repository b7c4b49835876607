#!/bin/bash
# builds the symbolic executor into /verif/build (or $1)
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
set -e
g++ -O2 -g1 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -w "$D/symx.cpp" -o "$OUT/symx.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$OUT/symx.tmp.$$" "$OUT/symx"
