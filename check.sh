#!/bin/bash
# usage: check.sh <property> [quick|thorough] -- explores the property on /repo's working tree
cd "$(dirname "$0")" || exit 3
export LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# never write bytecode, never read stale bytecode
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec /opt/venv/bin/python -B mc/run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
