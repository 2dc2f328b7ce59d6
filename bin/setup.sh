#!/bin/bash
# Builds the simulators once (offline); every check rebuilds what changed in /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
for p in "$here"/sim/props/*.cpp; do
  id=$(basename "$p" .cpp)
  python3 "$here/bin/build.py" "$id" >/dev/null || { echo "setup: build of $id failed"; exit 1; }
done
echo "setup ok"
