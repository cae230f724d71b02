#!/bin/bash
# check.sh <property>: decide one property of /repo's current tree
cd "$(dirname "$0")" || exit 1
export PYTHONHASHSEED=0
exec python3 engine/check.py "$@"
