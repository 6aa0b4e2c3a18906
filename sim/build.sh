#!/bin/bash
# build.sh <outdir> [py]: compile the library of the working tree (instrumented), the adapters and the simulator;
# with py also the Python bindings of the working tree, with an interpreter inside the simulator
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}; OUT=$1; PY=${2:-}; mkdir -p "$OUT" || exit 2
rm -f -- "$OUT"/*.o "$OUT"/simcheck
INC="-I$REPO/EigenIPC/include -I$REPO/EigenIPC/src -I/usr/include/eigen3 -I$HERE"
# the library is compiled with the compiler of its own build (gcc), every memory access instrumented
LIBF="-std=c++17 -O1 -g1 -w -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread -fno-tree-vectorize -fno-tree-loop-distribute-patterns -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -mmemcpy-strategy=libcall:-1:align -mmemset-strategy=libcall:-1:align -DEIGEN_DONT_VECTORIZE -ftrivial-auto-var-init=pattern -fno-gnu-unique -Dthread_local="
NOENT="--param tsan-instrument-func-entry-exit=0"
SIMF="-std=c++17 -O2 -g1 -w"
pids=(); names=()
lib() { local o=$1 f=$2; shift 2; g++ $LIBF "$@" $INC -c "$f" -o "$o" && objcopy --redefine-sym memcpy=__tsan_memcpy --redefine-sym memmove=__tsan_memmove --redefine-sym memset=__tsan_memset "$o"; }
one() { local o=$1; shift; ( "$@" ) > "$OUT/$o.log" 2>&1 & pids+=($!); names+=("$o"); }
if [ -n "$PY" ]; then
  B=$REPO/EigenIPC/bindings/PyEigenIPC; PYV=$(python3 -c 'import sys;print("%d.%d"%sys.version_info[:2])'); PYINC="-I/usr/include/python$PYV -I$B/include -I$B/src -I$B"
  for f in "$B"/*.cpp "$B"/src/*.cpp; do n=py_$(basename "$f" .cpp).o; one "$n" g++ -std=c++17 -O1 -w -DNDEBUG -DEIGEN_DONT_VECTORIZE -fvisibility=hidden $PYINC $INC -c "$f" -o "$OUT/$n"; done
  one pyhost.o g++ $SIMF -fvisibility=hidden -DPYHERE="\"$HERE\"" -DPYBIND_DIR="\"$B\"" $PYINC -I"$HERE" -c "$HERE/pyhost.cpp" -o "$OUT/pyhost.o"
  NOENT=""
fi
for f in "$REPO"/EigenIPC/src/*.cpp; do n=lib_$(basename "$f" .cpp).o; one "$n" lib "$OUT/$n" "$f" $NOENT; done
one lib_adapters.o lib "$OUT/lib_adapters.o" "$HERE/lib_adapters.cpp" --param tsan-instrument-func-entry-exit=0
for f in kernel world main registry props_util $(cd "$HERE" && ls props_*.cpp | sed 's/.cpp//' | grep -v props_util); do one "$f.o" clang++ $SIMF -I"$HERE" -c "$HERE/$f.cpp" -o "$OUT/$f.o"; done
bad=0
for i in "${!pids[@]}"; do wait "${pids[$i]}" || { echo "compile of ${names[$i]} failed"; cat "$OUT/${names[$i]}.log" | head -40; bad=1; }; done
[ $bad = 0 ] || exit 2
if [ -n "$PY" ]; then
  # one object for the library, whose inline functions nobody else may pick up (calling one would enter library mode)
  cd "$OUT" || exit 2
  ls lib_*.o | grep -v lib_adapters > libs.txt; ld -r --force-group-allocation -o all.tmp $(cat libs.txt) || exit 2
  nm -u $(ls *.o | grep -v -x -f libs.txt) | awk 'NF==2{print $2}' | sort -u > wanted.txt
  nm all.tmp | awk '$2=="W"||$2=="V"||$2=="u"{print $3}' | sort -u | comm -23 - wanted.txt > local.txt
  objcopy --localize-symbols=local.txt all.tmp lib_all.o || exit 2
  rm -f -- $(cat libs.txt) all.tmp; cd - > /dev/null
  clang++ -o "$OUT/simcheck" "$OUT"/*.o -Wl,-T,"$HERE/lib.ld" -rdynamic -L/usr/lib/x86_64-linux-gnu "-lpython$PYV" -lpthread -lrt -ldl || exit 2
else
  clang++ -o "$OUT/simcheck" "$OUT"/*.o -Wl,-T,"$HERE/lib.ld" -rdynamic -lpthread -lrt -ldl || exit 2
fi
