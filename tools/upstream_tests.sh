#!/bin/bash
# Runs the repository's own gtest suites on its sources and the ROS model (fault injection is not modelled).
#   upstream_tests.sh [REPO]
R=${1:-/repo}/rmw_dds_common V=$(cd "$(dirname "$0")/.." && pwd) W=$(mktemp -d) rc=0
trap 'rm -rf "$W"' EXIT
python3 "$V/model/genmsg.py" "$R/msg" "$W/gen/rmw_dds_common/msg"
I="-I$V/tools/ut -I$V/model -I$V/model/include -I$W/gen -I$R/include -I$R/test"
for s in "$R"/src/*.cpp "$V/model/ros.cpp"; do clang++ -std=c++17 -w -g $I -c "$s" -o "$W/$(basename "$s").o" & done; wait
for t in "$R"/test/test_*.cpp; do
  n=$(basename "$t" .cpp)
  clang++ -std=c++17 -w $I -DTEST_RESOURCES_DIR="\"$W\"" "$t" "$W"/*.o -lgmock -lgtest -lgtest_main -lpthread -o "$W/$n" 2> "$W/err" || { echo "$n: does not build"; head -5 "$W/err"; rc=1; continue; }
  (cd "$W" && "./$n" > "$W/out" 2>&1) || { rc=1; grep -E "FAILED|Failure" -A4 "$W/out" | head -30; }
  echo "$n: $(tail -1 "$W/out")"
done
exit $rc
