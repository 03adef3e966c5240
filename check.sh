#!/bin/bash
# usage: check.sh ID [quick|thorough | replay FILE]   (run from anywhere)
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B harness/main.py "$@"
