#!/bin/bash
# Runs one check: run.sh <property id> [--tier quick|thorough], or run.sh --replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m pbt "$@"
