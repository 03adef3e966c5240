#!/bin/bash
# Nothing is built: the checks import /repo/src from source. This only shows that the interpreter and its libraries are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "harness"); from pv import load; load.install(); import llvmlite, mpmath, numpy, sympy, protosym.simplecas; print("ok")'
