#!/bin/bash
# bash check.sh C01 [quick|thorough]   |   bash check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
SCRATCH=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export MPLCONFIGDIR="$SCRATCH" PYTHONPYCACHEPREFIX="$SCRATCH/pyc" TMPDIR="$SCRATCH"
/opt/venv/bin/python -B -m mc.main "$@"
