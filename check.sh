#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
# Explores the property on /repo's working tree (imported live through
# pypath/wfa_planning_evaluation_framework -> /repo/src).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 2
ID="${1:?usage: check.sh ID [tier]}"; shift
TIER="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export LANG=C.UTF-8 HOME=/root
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export PYTHONPYCACHEPREFIX=/nonexistent/vmc
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$TIER"
export PYTHONPATH="$HERE:$HERE/stubs:$HERE/pypath"
exec /opt/venv39/bin/python -W ignore -m vmc.run "$ID" --tier "$TIER" "$@"
