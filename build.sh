#!/bin/bash
# Builds, offline, (a) the shared library from /repo's working tree and (b) the simulator.
# Results go to /verif/build, keyed by the content they were made from.
# Usage: build.sh [--quiet]; prints the directory of the result on the last line.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset LD_LIBRARY_PATH
export CC=gcc CXX=g++
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${NLCG_REPO:-/repo}"
OUT="$HERE/build"
mkdir -p "$OUT"
exec 9>"$OUT/lock"
flock 9
libhash=$( (cd "$REPO" && find CMakeLists.txt src include cmake -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat "$HERE/cmake/hook.cmake" "$HERE/build.sh") | sha256sum | cut -c1-16)
simhash=$( (cd "$HERE/sim" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cat "$HERE/build.sh"; cd "$REPO/include" && cat interface.hpp nlcglib.hpp) | sha256sum | cut -c1-16)
DIR="$OUT/$libhash-$simhash"
LIB="$OUT/lib-$libhash"
SIM="$OUT/sim-$simhash"
build_lib() {
  [ -f "$LIB/ok" ] && return 0
  rm -rf "$LIB"; mkdir -p "$LIB"
  cmake -S "$REPO" -B "$LIB/b" -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTS=OFF -DUSE_OPENMP=OFF \
    -DLAPACK_VENDOR=OpenBLAS -DCMAKE_CXX_EXTENSIONS=OFF "-DCMAKE_CXX_FLAGS=-Wno-error -w -fno-gnu-unique" \
    "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG" -DCMAKE_CXX_STANDARD_LIBRARIES=-llapacke \
    -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_PROJECT_nlcglib_INCLUDE="$HERE/cmake/hook.cmake" >"$LIB/log" 2>&1 || return 1
  ninja -C "$LIB/b" -j8 nlcglib >>"$LIB/log" 2>&1 || return 1
  so=$(find "$LIB/b" -name 'libnlcglib.so*' -type f | head -1)
  [ -n "$so" ] || return 1
  for i in 0 1 2 3 4 5 6 7; do cp "$so" "$LIB/rank$i.so" || return 1; done
  rm -rf "$LIB/b"
  touch "$LIB/ok"
}
build_sim() {
  [ -f "$SIM/ok" ] && return 0
  rm -rf "$SIM"; mkdir -p "$SIM"
  local f pids="" o
  gcc -O1 -c "$HERE/sim/mpi_data.c" -o "$SIM/mpi_data.o" >>"$SIM/log" 2>&1 || return 1
  for f in "$HERE"/sim/*.cpp; do
    o="$SIM/$(basename "$f" .cpp).o"
    g++ -std=c++17 -O2 -g1 -ffp-contract=off -fno-strict-aliasing -w -DOMPI_SKIP_MPICXX -DMPICH_SKIP_MPICXX -I"$REPO/include" -I/usr/lib/x86_64-linux-gnu/openmpi/include -c "$f" -o "$o" >"$o.log" 2>&1 &
    pids="$pids $!"
  done
  local bad=0 p
  for p in $pids; do wait "$p" || bad=1; done
  cat "$SIM"/*.o.log >>"$SIM/log" 2>/dev/null
  [ $bad = 0 ] || return 1
  g++ -o "$SIM/nlcgsim" "$SIM"/*.o -Wl,--dynamic-list="$HERE/sim/export.list" -Wl,--no-as-needed -lopenblas -llapacke -ldl -lpthread >>"$SIM/log" 2>&1 || return 1
  rm -f "$SIM"/*.o "$SIM"/*.o.log
  touch "$SIM/ok"
}
build_lib & lp=$!
build_sim & sp=$!
rc=0
wait $lp || { echo "library build failed:"; tail -40 "$LIB/log"; rc=2; }
wait $sp || { echo "simulator build failed:"; tail -40 "$SIM/log"; rc=2; }
[ $rc = 0 ] || exit 2
# keep the disk small: drop all but the newest few results
ls -1dt "$OUT"/lib-* 2>/dev/null | tail -n +5 | xargs -r rm -rf
ls -1dt "$OUT"/sim-* 2>/dev/null | tail -n +3 | xargs -r rm -rf
touch "$LIB" "$SIM"
echo "$LIB $SIM"
