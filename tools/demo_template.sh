#!/bin/bash
# compiles demo.cpp against the working tree and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -r "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=gnu++17 -O1 -w -fopenmp -DKOKKOS_ENABLE_CXX17 -DKOKKOS_DEPENDENCE -DMPART_HAS_CEREAL -DMPART_HAS_NLOPT -DNLOPT_DLL -I"$R" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -Wl,-rpath,"$R/_build" "$R/_build/libmpart.so" $L/libnlopt.so.0 $L/libkokkoscontainers.so.3.7.01 $L/libkokkoscore.so.3.7.01 -ldl || exit 3
cd "$T" && OMP_NUM_THREADS=4 timeout 120 ./demo
