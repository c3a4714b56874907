#!/bin/bash
# usage: check.sh PROPERTY [options of dst.run]: runs one property's simulation against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here/sim/shim:$here/sim:/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE TZ=UTC LC_ALL=C.UTF-8 HOME=${HOME:-/root}
cd "$here" || exit 2
exec /opt/venv/bin/python -m dst.run "$@"
