#!/bin/bash
# Compiles the simulated-OS seam once; every check also does this on demand.
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
"${DST_PYTHON:-/opt/venv/bin/python}" -c "from dst import simos; print(simos.build())"
