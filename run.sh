#!/bin/bash
# usage: run.sh C05 [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -B run.py "$@"
