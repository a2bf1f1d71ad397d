#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD:/repo/src"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export VERIF_TIER="${2:-quick}"
exec /opt/venv/bin/python -m harness.run "$1"
