#!/bin/sh
# builds rt.bc into $1
set -e
cd "$(dirname "$0")"
B=${1:-../build}; mkdir -p "$B"
for f in rt rt_stream; do
  clang++-18 -std=c++20 -O0 -Xclang -disable-O0-optnone -fno-builtin -g1 -w -c -emit-llvm -o "$B/$f.0.bc" $f.cpp
  opt-18 -passes='sroa,simplifycfg' -o "$B/$f.1.bc" "$B/$f.0.bc"
done
llvm-link-18 -o "$B/rt.bc" "$B/rt.1.bc" "$B/rt_stream.1.bc"
