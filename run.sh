#!/bin/bash
# usage: ./run.sh Cnn [--thorough] [--group g] [--replay file] [--times]
# Runs the check of one property against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
repo="${VERIF_REPO:-/repo}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX")" || exit 2
trap 'case "$scratch" in */mc.*) rm -rf -- "$scratch";; esac' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg
export MPLCONFIGDIR="$scratch/mpl" PYTHONPATH="$repo:$here" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MC_SCRATCH="$scratch"
cd "$scratch" || exit 2
f="$(echo "$id" | tr 'A-Z' 'a-z')"
/opt/venv/bin/python "$here/checks/$f.py" "$@"
exit $?
