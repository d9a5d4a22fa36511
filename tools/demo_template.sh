#!/bin/bash
# exit 0: the library behaves as the property says; run with cwd = the repository after its build
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 9; trap 'rm -rf -- "$w"' EXIT
S=$PWD/libs/e_float/src
(cd "$S" && find e_float/*.cpp e_float/efx functions utility -name '*.cpp') | xargs -P8 -I{} sh -c 'g++ -O1 -std=c++14 -DE_FLOAT_TYPE_EFX -DE_FLOAT_TEST_REAL_IMAG_TESTS -I"'"$S"'" -c "'"$S"'/{}" -o "'"$w"'/$(echo {} | tr / _).o"' || exit 8
g++ -O1 -g -std=c++14 -DE_FLOAT_TYPE_EFX -I"$S" "$here/demo.cpp" "$w"/*.o -o "$w/demo" || exit 7
cd "$w" && timeout 120 ./demo
