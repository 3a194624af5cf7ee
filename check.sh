#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
bash extractor/build.sh >/dev/null || { echo "ANALYSIS-BROKEN: extractor does not build"; exit 2; }
exec python3 engine/run.py "$1"
