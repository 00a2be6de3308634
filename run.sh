#!/bin/bash
# ./run.sh C07 [--tier quick|thorough] [--family NAME] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONPYCACHEPREFIX=/opt/vp/no-pycache PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
unset PYTHONPATH
if [ "$1" = --setup ]; then
    /opt/venv/bin/python -c 'import serial, ssl' && echo "nothing to build"
    exit
fi
exec /opt/venv/bin/python -W ignore -m mc "$@"
