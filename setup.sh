#!/bin/bash
# Nothing to compile: the checker is Python run by the interpreter the repository's tests use.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import numpy, pandas, h5py, openquake.hazardlib, paramiko, cartopy, matplotlib
print('setup ok')
PY
