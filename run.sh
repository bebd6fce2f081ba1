#!/bin/bash
# run.sh <property> [--thorough]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/lib LC_ALL=C.UTF-8
exec /opt/veriftools/pyvenv/bin/python checks/"$1".py "${@:2}"
