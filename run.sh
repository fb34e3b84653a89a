#!/bin/bash
# run.sh PROPERTY [quick|thorough]  -- runs one check against /repo
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
unset PYTHONPATH THEANO_FLAGS
exec /opt/venv/bin/python -W ignore -m mc.main "$1" --tier "${2:-${VERIF_TIER:-quick}}"
