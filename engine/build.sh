#!/bin/bash
# builds ksym into $1 (default /verif/build/ksym)
set -e
cd "$(dirname "$0")"; OUT=${1:-/verif/build/ksym}; mkdir -p "$(dirname "$OUT")"
LL=$(ls -d /root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib)
LIB=$(ls $LL/libLLVM.so.*-stable | head -1)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -O2 -g1 -std=c++20 -Wall -Wno-unused -Wno-misleading-indentation -I/usr/include/llvm-c-18 expr.cpp solver.cpp engine.cpp -o $OUT.tmp "$LIB" -lz3 -Wl,-rpath,$LL -Wl,-rpath,$Z/lib -lpthread
mv $OUT.tmp $OUT
