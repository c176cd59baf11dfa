#!/bin/bash
# run.sh <property> [options]: runs one check against /repo's working tree, never using stale bytecode.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
CACHE=$(mktemp -d) || exit 2
trap 'rm -rf "$CACHE"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$CACHE" PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
"$PY" -B check.py "$@"
