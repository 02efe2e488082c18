#!/bin/bash
# check.sh <property> [options]: runs one simulation check against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR"
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
# never read byte code compiled from an older state of the working tree
pyc=$(mktemp -d "${TMPDIR:-/tmp}/simpyc.XXXXXX") || exit 3
trap 'rm -rf "$pyc"' EXIT
export SIM_SCRATCH="$pyc"
export PYTHONPYCACHEPREFIX="$pyc" PYTHONWARNINGS=ignore
cd "$here" || exit 3
PYTHONPATH="$here:${SIM_REPO:-/repo}/src" /opt/venv/bin/python -m sim.main "$@"
exit $?
