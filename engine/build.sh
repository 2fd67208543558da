#!/bin/bash
# Builds the engine into $1 (default /verif/build). Offline; needs LLVM 18 dev files and libz3.
set -e
o=${1:+$(realpath -m "$1")}
cd "$(dirname "$0")"
out=${o:-../build}; mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ] && [ -e $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=""; ZL="-lz3"; fi
L=/usr/lib/llvm-18/bin/llvm-config
CF="-O2 -std=c++17 -w $ZI -I$($L --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
rm -f "$out"/expr.o "$out"/solver.o "$out"/exec.o
for f in expr solver exec; do g++ $CF -c $f.cpp -o "$out/$f.o" & done
wait
g++ -o "$out/qsym.tmp" "$out"/expr.o "$out"/solver.o "$out"/exec.o -L$($L --libdir) -lLLVM-18 $ZL -lpthread
mv "$out/qsym.tmp" "$out/qsym"
