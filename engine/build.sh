#!/bin/bash
# Builds the symbolic executor into /verif/build (git-ignored).
set -eu
cd "$(dirname "$0")"
B=../build; mkdir -p $B
FL="-std=c++17 -O2 -g1 -fno-rtti -Wno-deprecated-declarations $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-I|^-D' | tr '\n' ' ')"
g++ -std=c++17 -O2 -c expr.cpp -o $B/expr.o &
g++ -std=c++17 -O2 -c solver.cpp -o $B/solver.o &
g++ $FL -fexceptions -c exec.cpp -o $B/exec.o &
wait %1; wait %2; wait %3
g++ $B/expr.o $B/solver.o $B/exec.o -o $B/symx -L$(llvm-config-18 --libdir) -lLLVM-18 -lz3
