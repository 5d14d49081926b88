#!/bin/bash
# Builds the symbolic executor, and the bitcode of the models of libstdc++'s compiled parts, libc and
# the ROS packages (all independent of /repo).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
b=$here/build
mkdir -p "$b"
exec 9>"$b/.lock"
flock 9
bash "$here/engine/build.sh" "$b"
stamp=$(cat "$here"/model/*.cpp "$here"/model/*.h "$here"/tools/setup.sh | sha256sum | cut -c1-32)
if [ -f "$b/rt.bc" ] && [ "$(cat "$b/rt.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
F="-std=c++17 -O1 -Xclang -disable-llvm-passes -D__NO_INLINE__ -gline-tables-only -w -I$here/model -emit-llvm -c"
clang++ $F -fno-access-control -fno-builtin "$here/model/runtime.cpp" -o "$b/runtime.tmp.bc" & p1=$!
clang++ $F "$here/model/ros.cpp" -o "$b/ros.tmp.bc" & p2=$!
wait $p1; wait $p2
llvm-link-18 "$b/runtime.tmp.bc" "$b/ros.tmp.bc" -o "$b/rt.tmp.bc"
mv "$b/rt.tmp.bc" "$b/rt.bc"
rm -f "$b/runtime.tmp.bc" "$b/ros.tmp.bc"
N="-std=c++17 -g -O1 -w -I$here/model -c"
for v in asan: tsan: plain:; do
  n=${v%%:*}
  case $n in
    asan) S="-fsanitize=address,undefined -fno-sanitize-recover=undefined";;
    tsan) S="-fsanitize=thread";;
    plain) S="";;
  esac
  # ThreadSanitizer must not see the scheduler's own accesses
  if [ $n = tsan ]; then clang++ $N "$here/model/native.cpp" -o "$b/native.$n.o"; else clang++ $N $S "$here/model/native.cpp" -o "$b/native.$n.o"; fi
  clang++ $N $S "$here/model/ros.cpp" -o "$b/ros.$n.o"
done
echo "$stamp" > "$b/rt.stamp"
