#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] : decides one property statically on /repo's working tree
set -u
cd "$(dirname "$0")"
PY=python3-vt; command -v $PY >/dev/null 2>&1 || PY=python3
exec $PY -B rules/check.py "$@"
