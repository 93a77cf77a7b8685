#!/bin/bash
# builds the executor into /verif/build/symx
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
F="-O2 -std=c++17 -fno-rtti -w $(llvm-config-18 --cppflags) -fexceptions"
g++ $F -c "$here/expr.cpp" -o "$out/expr.$$.o" & p=$!
g++ $F -c "$here/symx.cpp" -o "$out/symx.$$.o"
wait $p
g++ "$out/symx.$$.o" "$out/expr.$$.o" -o "$out/symx.tmp.$$" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3 -lpthread
rm -f "$out/symx.$$.o" "$out/expr.$$.o"
mv "$out/symx.tmp.$$" "$out/symx"
