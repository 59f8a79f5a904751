#!/bin/bash
# usage: run.sh PID [--tier thorough] ...
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -m symx.runner "$@"
