#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
OUT=${1:-/verif/build}; D=$(dirname "$(readlink -f "$0")"); mkdir -p "$OUT"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
SUM=$(cat $D/*.cpp $D/*.h $D/*.inc $D/build.sh | sha256sum | cut -c1-16)
[ -x $OUT/sym ] && [ "$(cat $OUT/sym.sum 2>/dev/null)" = "$SUM" ] && exit 0
CF="-O2 -std=c++17 -Wno-deprecated-declarations -I$Z3D/include -I/usr/lib/llvm-18/include"
g++ $CF -c $D/core.cpp -o $OUT/core.o &
g++ $CF -c $D/sym.cpp -o $OUT/sym.o &
wait %1; wait %2
g++ $OUT/core.o $OUT/sym.o -o $OUT/sym -L$Z3D/lib -lz3 -Wl,-rpath,$Z3D/lib -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp
rm -f $OUT/core.o $OUT/sym.o
echo $SUM > $OUT/sym.sum
