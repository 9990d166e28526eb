#!/bin/bash
# Usage: run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B "$here/check.py" "$@"
