#!/bin/bash
# run.sh PROPERTY [--replay FILE]: decide one property on /repo's working tree.
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export MPLCONFIGDIR="${TMPDIR:-/tmp}/rascal_mc_mpl"
exec /opt/venv/bin/python check.py "$@"
