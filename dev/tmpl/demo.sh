#!/bin/bash
# compiles demo.cpp against the built library and runs it; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=""
for d in "$root"/src/*/ "$root"/src/Algorithms/*/ "$root"/src/CbcBonmin/*/ "$root"/_build/src/Interfaces/ "$root"/_build/src/*/; do inc="$inc -I$d"; done
L="$root/_build/src/CbcBonmin/.libs"
g++ -w -O1 -std=c++14 -DHAVE_CONFIG_H -DHAVE_CSTDDEF $inc -I"$here" -I/usr/include/coin "$here/demo.cpp" -o "$t/demo" \
  -L"$L" -Wl,-rpath,"$L" -lbonmin $(pkg-config --libs cbc ipopt cgl osi-clp 2>/dev/null || echo "-lCbcSolver -lCbc -lCgl -lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lipopt") || exit 3
cd "$t"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
timeout 120 ./demo > out.txt 2> err.txt
rc=$?
tail -5 err.txt
exit $rc
