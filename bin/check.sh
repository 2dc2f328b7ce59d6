#!/bin/bash
# usage: check.sh ID quick|thorough   Rebuilds the simulator from /repo and searches.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
exe=$(python3 "$here/bin/build.py" "$id") || { echo "build failed for $id"; exit 2; }
SIM_VERIF="$here" VERIF_SEED="${VERIF_SEED:-1}" exec "$exe" "$tier"
