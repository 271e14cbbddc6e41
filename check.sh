#!/bin/bash
# bash check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1
exec python3-vt -m pyvc.run check "$1" --tier "${2:-quick}"
