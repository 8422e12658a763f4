#!/bin/bash
# Builds the symbolic executor (LLVM 18 for reading IR, z3 for deciding queries).
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
B=${VBUILD:-../build}; mkdir -p $B
LF="$(llvm-config-18 --cxxflags 2>/dev/null | sed 's/-fno-exceptions//; s/-DNDEBUG//' || echo -I/usr/lib/llvm-18/include)"
for s in expr poly solver interp; do
  if [ $s.cpp -nt $B/$s.o ] || [ expr.h -nt $B/$s.o ] || [ poly.h -nt $B/$s.o ] || [ solver.h -nt $B/$s.o ] || [ userfn.inc -nt $B/$s.o ] || [ builtins.inc -nt $B/$s.o ]; then
    if [ $s = interp ]; then g++ -O2 -w $LF -std=c++17 -fexceptions -I/usr/lib/llvm-18/include -c $s.cpp -o $B/$s.o & else g++ -O2 -w -std=c++17 -I$Z/include -c $s.cpp -o $B/$s.o & fi
  fi
done
for j in $(jobs -p); do wait $j; done
g++ -o $B/symex.tmp $B/expr.o $B/poly.o $B/solver.o $B/interp.o -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp -lpthread
mv $B/symex.tmp $B/symex
