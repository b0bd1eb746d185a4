#!/bin/bash
# checks/run.sh PROPERTY
. /opt/vp/env.sh
unset CC CXX
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$(dirname "$0")/.."
exec python checks/check.py "$1"
