#!/bin/bash
# usage: replay.sh FILE [--trace]   Rebuilds from /repo and replays one recorded violation.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$(sed -n 's/^property //p' "$1" | head -1)
exe=$(python3 "$here/bin/build.py" "$id") || exit 2
SIM_VERIF="$here" exec "$exe" --replay "$1" ${2:-}
