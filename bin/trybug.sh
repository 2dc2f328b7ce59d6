#!/bin/bash
# Development aid: trybug.sh BUG [quick command ids...]: applies seeded/BUG to a scratch copy of
# /repo, checks that it builds, passes the tests, that its demonstration tells the trees apart,
# and runs the named checks (default: the property of meta.json) against the copy.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); bug=$1; shift
wt=/tmp/wt-$bug; rm -rf "/tmp/wt-$bug"; cp -a /repo "$wt"; cd "$wt" || exit 2
sed -i "s#/repo/#$wt/#g; s#/repo\$#$wt#; s#/repo #$wt #g" _build/CMakeCache.txt 2>/dev/null
rm -rf "$wt/_build-atlas" "$wt/_build-opencl" "$wt/_build/CMakeFiles" 
git apply "$V/seeded/$bug/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
(CC=gcc CXX=g++ cmake -S "$wt" -B "$wt/_build" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C "$wt/_build") >"$wt/build.log" 2>&1 || { echo "BUILD FAILED"; tail -20 "$wt/build.log"; exit 2; }
[ "${SKIP_TESTS:-}" ] || ctest --test-dir "$wt/_build" -j8 2>&1 | grep -E "tests passed|Failed|\*\*\*" | head
cp -a "$V/seeded/$bug" "$wt/.demo"; rm -f "$wt/.demo/patch.diff" "$wt/.demo/meta.json"
(cd /repo && timeout 300 bash "$wt/.demo/demo.sh" >"$wt/d0.log" 2>&1); a=$?
(cd "$wt" && timeout 300 bash "$wt/.demo/demo.sh" >"$wt/d1.log" 2>&1); b=$?
echo "demo: clean=$a patched=$b"; [ $a = 0 ] || tail -5 "$wt/d0.log"; tail -3 "$wt/d1.log"
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(json.load(open('$V/seeded/$bug/meta.json'))['property'])")
mkdir -p "$wt/simout/evidence"
for id in $ids; do
  exe=$(SIM_REPO=$wt SIM_BUILD=$wt/simbuild python3 "$V/bin/build.py" "$id") || { echo "sim build failed"; continue; }
  SIM_VERIF=$wt/simout VERIF_SEED=1 "$exe" quick >"$wt/c_$id.log" 2>&1; echo "check $id: exit $?"; grep -E "VIOLATION|violation" "$wt/c_$id.log" | head -3; tail -2 "$wt/c_$id.log"
done
[ "${KEEP:-}" ] || rm -rf "/tmp/wt-$bug"
