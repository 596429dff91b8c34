#!/bin/bash
# nothing to compile: the engine reads /repo's source on every run; check the interpreters
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "import z3, numpy, scipy; import symx.loader as l; l.fresh(); print('engine ok', z3.get_version_string())" || exit 1
/opt/venv/bin/python -c "import obspy, numpy, matplotlib, pandas; print('package interpreter ok')" || exit 1
