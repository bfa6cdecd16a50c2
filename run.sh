#!/bin/sh
# usage: sh run.sh C01 quick|thorough        decide one property
#        sh run.sh --replay FILE             re-run a recorded violation
#        sh run.sh setup                     sanity check of the installation
cd "$(dirname "$0")" || exit 3
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 PYTHONUTF8=1
unset PYTHONPATH PYTHONSTARTUP PYTHONINSPECT
exec "$PY" -B -m checks.core "$@"
