#!/bin/bash
# builds khsym into $1 (default: ./khsym)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/khsym}
clang++-18 -O2 -g1 -std=c++17 -w "$D/khsym.cpp" -o "$OUT.tmp.$$" $(/usr/lib/llvm-18/bin/llvm-config --cxxflags --ldflags --libs core irreader support demangle) -lz3
mv "$OUT.tmp.$$" "$OUT"
