#!/bin/bash
# run.sh <ID> | run.sh --replay FILE | run.sh --setup
# Runs one runtime-monitoring check against the current tree of /repo.
cd "$(dirname "$0")" || exit 2
export GIRTH_REPO="${GIRTH_REPO:-/repo}"
PY=/opt/venv/bin/python
# Deterministic numerics: one BLAS thread, no run-to-run kernel selection.
export PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell MKL_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export PYTHONPATH="$PWD"
# Never read bytecode compiled from an earlier tree.
SCRATCH=$(mktemp -d /tmp/girth-rv.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export RV_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH"
"$PY" -m rv.cli "$@"
exit $?
