#!/bin/sh
# usage: check.sh <property> [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore LC_ALL=C.UTF-8
exec /opt/venv/bin/python harness/run.py "$@"
