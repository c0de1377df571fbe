#!/bin/bash
# build.sh OUTDIR : build the harness from /repo's working tree.  The sources
# which need the (absent) wsrep-API headers are left out, as in the
# repository's own build; references to them stay unresolved and unused.
set -e
OUT=${1:?}; REPO=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FLAGS="-std=c++11 -O1 -g -D_GLIBCXX_ASSERTIONS -I$REPO/include -I$REPO/src -I$H -w"
{
echo "all: $OUT/harness"
OBJS=""; HD=$(ls "$REPO"/include/wsrep/*.hpp "$REPO"/src/*.hpp "$H"/*.hpp | tr '\n' ' ')
for f in "$REPO"/src/*.cpp; do b=$(basename "$f" .cpp)
  case $b in *_service_v1|wsrep_provider_v26|provider_options) continue;; esac
  echo "$OUT/l_$b.o: $f $HD ; g++ $FLAGS -c $f -o \$@"; OBJS="$OBJS $OUT/l_$b.o"
done
for f in "$H"/*.cpp; do b=$(basename "$f" .cpp)
  echo "$OUT/h_$b.o: $f $HD ; g++ $FLAGS -c $f -o \$@"; OBJS="$OBJS $OUT/h_$b.o"
done
echo "$OUT/harness: $OBJS ; g++ -no-pie -o \$@ $OBJS -lpthread -ldl -Wl,--unresolved-symbols=ignore-in-object-files"
} > "$OUT/Makefile"
make -s -j8 -f "$OUT/Makefile" all
