#!/bin/sh
# run one check: rc.sh C01 [args]
exec env PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python run.py "$@"
