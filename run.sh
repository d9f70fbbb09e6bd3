#!/bin/bash
# run.sh CHECK-ID [quick|thorough]: runs one check of /verif against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root} LANG=C.UTF-8 TMPDIR=${TMPDIR:-/tmp}
export PATH=/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CC=gcc CXX=g++ FC=gfortran
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export MPLCONFIGDIR=$PWD/build/mpl OMP_NUM_THREADS=4 OPENBLAS_NUM_THREADS=2 NUMEXPR_MAX_THREADS=4
export HDF5_USE_FILE_LOCKING=FALSE
unset PYTHONPATH
mkdir -p build/mpl evidence replay
exec python -W ignore -m "checks.$(echo "$1" | tr 'A-Z' 'a-z')"
