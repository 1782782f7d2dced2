#!/bin/bash
# Runs one check: check.sh C01
cd "$(dirname "$0")" || exit 2
exec env -u PYTHONPATH -u PYTHONSTARTUP PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TZ=UTC LC_ALL=C.UTF-8 \
  /opt/venv/bin/python -m vsim.main "$@"
