#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export PYTHONPATH="$PWD:/repo" PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 JAX_ENABLE_X64=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec "$PY" -m mc.run "$1" "$VERIF_TIER" ${3:+"$3"}
