#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
# Everything is imported from /repo's current working tree (override for
# experiments: LULUA_REPO=/some/copy). Byte code of the repository is never used,
# so a stale .pyc cannot stand in for the source.
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONWARNINGS=ignore
unset PYTHONPATH PYTHONSTARTUP
exec /opt/venv/bin/python -W ignore run.py "$@"
