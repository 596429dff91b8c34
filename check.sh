#!/bin/bash
# check.sh <property id> [quick|thorough]: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec python3-vt -m symx.run "$1" --tier "${2:-quick}"
