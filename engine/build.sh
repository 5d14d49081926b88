#!/bin/bash
# Builds the symbolic executor into /verif/build/symex (only when the sources changed).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
stamp=$(cat "$here"/*.cpp "$here"/*.hpp "$here"/build.sh | sha256sum | cut -c1-32)
if [ -x "$out/symex" ] && [ "$(cat "$out/symex.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
flags="-std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr solver engine main; do
  g++ $flags -c "$here/$f.cpp" -o "$out/$f.o.$$" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ -o "$out/symex.$$" "$out"/{expr,solver,engine,main}.o.$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
rm -f "$out"/*.o.$$
mv "$out/symex.$$" "$out/symex"
echo "$stamp" > "$out/symex.stamp"
