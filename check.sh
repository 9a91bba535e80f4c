#!/bin/bash
# usage: ./check.sh P01 [--replay FILE | --cases N | --case I]
# Rebuilds what changed in /repo, then runs the check of one property.
cd "$(dirname "$0")" || exit 3
id="$1"
shift
python3 tools/build.py "$id" || { echo "build failed" >&2; exit 3; }
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
exec "build/bin/$id" "$@"
