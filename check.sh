#!/bin/bash
# ./check.sh <property> [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
# never read byte code cached beside the sources: always the current working tree
export PYTHONPYCACHEPREFIX="$here/.nocache"
exec /opt/venv/bin/python -B "$here/check.py" "$@"
