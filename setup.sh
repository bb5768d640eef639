#!/bin/bash
# Nothing to build: checks that the tools are there and that the encoding agrees with CPython on its own operations.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 PYTHONIOENCODING=utf-8
cd "$(dirname "$0")" || exit 2
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())' && mkdir -p evidence && exec /opt/veriftools/pyvenv/bin/python tools/selftest.py
