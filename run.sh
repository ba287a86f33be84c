#!/bin/bash
# bash run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the numga sources in ${NUMGA_REPO:-/repo}.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export MPLBACKEND=Agg JAX_PLATFORMS=cpu OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" TF_CPP_MIN_LOG_LEVEL=3
export NUMGA_REPO=${NUMGA_REPO:-/repo}
export PYTHONPATH=$NUMGA_REPO:$PWD
exec /opt/venv/bin/python -m vf.run "$@"
