#!/bin/bash
# Builds the executor, the Kokkos overlay and the libstdc++ bitcode.  Idempotent.
set -e
cd "$(dirname "$0")"; mkdir -p build evidence
exec 9>build/.lock; flock 9
engine/build.sh
mkdir -p build/shim; python3 shim/gen_shim.py build/shim
if [ shim/rt_std.cpp -nt build/rt_std.bc ] || [ shim/rt_str.cpp -nt build/rt_std.bc ]; then for f in rt_std rt_str; do clang++ -std=c++17 -O1 -w -fno-vectorize -fno-slp-vectorize -emit-llvm -c shim/$f.cpp -o build/$f.tmp.bc; done; llvm-link-18 build/rt_std.tmp.bc build/rt_str.tmp.bc -o build/rt_std.bc; fi
