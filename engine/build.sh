#!/bin/bash
# builds the symbolic executor; usage: build.sh OUTDIR
set -e
H=$(cd "$(dirname "$0")" && pwd); O=${1:-$H/../build}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w -fexceptions -I$Z/include $(llvm-config-18 --cppflags) "$H/symx.cpp" -o "$O/symx.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lpthread
mv "$O/symx.tmp" "$O/symx"
