#!/bin/bash
# check.sh PID: run the check of one property (deductive verifier + runtime contracts)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/veriftools/pyvenv/bin/python check.py "$1"
