# Sourced by setup.sh and run_check.sh: same interpreter and rounding as /opt/vp/env.sh.
export LANG="${LANG:-C.UTF-8}"
unset PYTHONHOME PYTHONPATH
export PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/verif/.no-pycache
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
