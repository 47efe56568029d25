#!/bin/bash
# Builds the symbolic executor into /verif/build (ignored by git).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/build"
cd "$here/build"
CXX=/usr/bin/g++
FLAGS="-std=c++17 -O2 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
if [ ! -x csx ] || [ "$here/engine/csx.cpp" -nt csx ] || [ "$here/engine/expr.cpp" -nt csx ] || [ "$here/engine/expr.hpp" -nt csx ]; then
  tmp="csx.tmp.$$"
  $CXX $FLAGS -c "$here/engine/expr.cpp" -o "expr.$$.o" &
  $CXX $FLAGS -c "$here/engine/csx.cpp" -o "csxm.$$.o"
  wait
  $CXX "expr.$$.o" "csxm.$$.o" -o "$tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
  rm -f "expr.$$.o" "csxm.$$.o"
  mv -f "$tmp" csx
fi
echo "engine ready"
