#!/bin/sh
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
O=$1; mkdir -p "$O"
F="-O2 -g1 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ $F -c symx.cpp -o "$O/symx.o" & P=$!
g++ $F -c expr.cpp -o "$O/expr.o"
wait $P
g++ "$O/symx.o" "$O/expr.o" -o "$O/symx.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$O/symx.tmp" "$O/symx"
clang++-18 -std=c++20 -O1 -fno-threadsafe-statics -fno-builtin -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-exceptions -fno-vectorize -fno-slp-vectorize -fno-pic -g1 -emit-llvm -c sxrt.cpp -o "$O/sxrt.bc"
