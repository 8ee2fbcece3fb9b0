#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay=FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=${VERIF_REPO:-/repo}:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
scratch=$(mktemp -d /tmp/verif-mc.XXXXXX) || scratch=/tmp
export VERIF_SCRATCH=$scratch TMPDIR=$scratch HOME=$scratch MPLCONFIGDIR=$scratch/mpl
chmod 755 "$scratch"
cd "$scratch" || cd /
/opt/venv/bin/python -W ignore "$here/mc/main.py" "$@"
rc=$?
case "$scratch" in /tmp/verif-mc.??????) chmod -R u+rwX "$scratch" 2>/dev/null; rm -rf -- "$scratch";; esac
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the interpreter itself died (e.g. killed) while running the code under test
  echo "checker process ended with status $rc"
  mkdir -p "$here/evidence/replay"
  echo "{\"property\": \"$1\", \"message\": \"process died with status $rc\"}" > "$here/evidence/replay/$1.json"
  echo "VIOLATION property=$1 replay=$here/evidence/replay/$1.json"
  rc=1
fi
exit $rc
