#!/bin/bash
# build_ext.sh OUTDIR [REPO]: compile /repo's C++ sources, pctsp/pypctsp.cpp and the simulated SCIP into OUTDIR/libpypctsp.so
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd); mkdir -p "$OUT/obj"
g++ -O2 -w -shared -fPIC -fno-exceptions -nostdlib++ "$HERE/ext/simheap.cpp" -o "$OUT/libsimheap.so"
FLAGS="-std=c++17 -O1 -w -fPIC -D_GLIBCXX_ASSERTIONS -DBOOST_LOG_DYN_LINK -I$HERE/ext/include -I$HERE/simscip/include -I$REPO/include -I/usr/include/python3.12"
{ for f in "$REPO"/src/*.cpp; do b=$(basename "$f" .cpp); [ "$b" = pygraph ] && continue; echo "g++ $FLAGS -c $f -o $OUT/obj/$b.o"; done
  echo "g++ $FLAGS -c $REPO/pctsp/pypctsp.cpp -o $OUT/obj/zz_pypctsp.o"
  echo "g++ $FLAGS -c $HERE/simscip/simscip.cpp -o $OUT/obj/zz_simscip.o"
  echo "g++ $FLAGS -c $HERE/ext/simglue.cpp -o $OUT/obj/zz_simglue.o"; } | xargs -P 8 -I CMD sh -c CMD
g++ -shared -Wl,-Bsymbolic "$OUT"/obj/*.o -o "$OUT/libpypctsp.so" -lboost_log -lboost_thread -lboost_system -lboost_filesystem -lyaml-cpp -ldl -lpthread
