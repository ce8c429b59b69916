#!/bin/bash
# Nothing to compile: checks that the interpreter and the code under test load.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$here"
cd "$here" && /opt/venv-pypy/bin/python -W ignore -c 'import gerber, cairocffi, mon.core; print("setup ok", gerber.__file__)'
