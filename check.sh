#!/bin/bash
# bash /verif/check.sh PROPERTY [--tier quick|thorough] [--replay FILE] ...   (exit 0 held, 1 violated)
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
SCRATCH=$(mktemp -d /tmp/hapua_mc.XXXXXX) || exit 2
trap 'find "$SCRATCH" -mindepth 1 -delete; rmdir "$SCRATCH"' EXIT
export MC_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH"
mkdir -p "$MPLCONFIGDIR"
unset PYTHONPATH
/opt/venv/bin/python -m mc.run "$@"
