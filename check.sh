#!/bin/bash
# bash check.sh C01 [options of pbt.run]   |   bash check.sh replay FILE   |   bash check.sh setup
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${TMPDIR:-/tmp}/mpl-verif-$$ HYPOTHESIS_STORAGE_DIRECTORY=${TMPDIR:-/tmp}/hyp-verif-$$
export PYTHONHASHSEED=0
unset PYTHONPATH
trap 'rm -rf "$MPLCONFIGDIR" "$HYPOTHESIS_STORAGE_DIRECTORY"' EXIT
PY=/opt/venv/bin/python
case "$1" in
  replay) shift; $PY -W ignore -m pbt.replay "$@" ;;
  setup) $PY -W ignore -m pbt.selftest ;;
  *) $PY -W ignore -m pbt.run "$@" ;;
esac
