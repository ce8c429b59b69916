#!/bin/bash
# check.sh <property id> [--quick|--thorough|--replay file]
# Runs one check against /repo's current working tree (pure Python: nothing to compile).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="/repo:$here"
cd "$here" || exit 2
exec /opt/venv-pypy/bin/python -W ignore -m mon "$@"
