# source me: the environment every simulator process runs in
export PYTHONPATH=/verif/sim/shim:/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
