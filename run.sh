#!/bin/bash
# usage: run.sh <PROPERTY> [--only TEXT] [--tier quick|thorough] [-v]      runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vkrun.XXXXXX") || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export MPLCONFIGDIR="$SCRATCH/mpl" VK_SCRATCH="$SCRATCH"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m vk.main "$@"
