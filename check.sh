#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
# Runs the monitors of one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/vp.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
# Bytecode goes to the scratch directory: a stale .pyc in /repo would hide an edit.
unset PYTHONDONTWRITEBYTECODE
export PYTHONPYCACHEPREFIX="$S/pyc" PYTHONHASHSEED=0
export PYTHONPATH="$PWD:${VP_SRC:-/repo/src}" VP_SCRATCH="$S" LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONIOENCODING PYTHONWARNINGS COVERAGE_PROCESS_START PYTHONUNBUFFERED PYTHONUTF8
# Own process group: whatever a case leaves running goes with it.
python -m mon "$@"
exit $?
