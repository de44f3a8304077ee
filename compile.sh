#!/bin/bash
# compile.sh SRC OUT.bc [flags]
set -eu
SRC=$1; OUT=$2; shift 2
V="$(cd "$(dirname "$0")" && pwd)"
exec clang++-18 -std=c++11 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -gline-tables-only -ffp-contract=off -fno-builtin \
  -D_GLIBCXX_ASSERTIONS -DVX_ENGINE=1 -U_FORTIFY_SOURCE -D__NO_INLINE__=1 -include vx_pre.h -Wno-everything \
  -I$V/shims -I$V/rt -I$V/harness -I${REPO:-/repo}/include "$@" "$SRC" -o "$OUT"
