#!/bin/bash
# check.sh <property>: see run.py
exec python3 "$(dirname "$0")/run.py" "$@"
