#!/bin/bash
# usage: check.sh <property id> | --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m qsmon.main "$@"
