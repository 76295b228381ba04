#!/bin/bash
# build_driver.sh OUTDIR [REPO]: compile /repo's C++ sources, the simulated SCIP and the driver into OUTDIR/driver
set -e
OUT=$1; REPO=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd); mkdir -p "$OUT/obj"
FLAGS="-std=c++17 -O1 -w -fPIC -D_GLIBCXX_ASSERTIONS -DBOOST_LOG_DYN_LINK -I$HERE/simscip/include -I$REPO/include"
fail=0
{ for f in "$REPO"/src/*.cpp; do b=$(basename "$f" .cpp); [ "$b" = pygraph ] && continue; echo "g++ $FLAGS -c $f -o $OUT/obj/$b.o"; done
  echo "g++ $FLAGS -c $HERE/simscip/simscip.cpp -o $OUT/obj/zz_simscip.o"
  echo "g++ $FLAGS -c $HERE/driver/driver.cpp -o $OUT/obj/zz_driver.o"; } | xargs -P 8 -I CMD sh -c CMD
g++ -rdynamic "$OUT"/obj/*.o -o "$OUT/driver" -lboost_log -lboost_thread -lboost_system -lboost_filesystem -lyaml-cpp -ldl -lpthread
