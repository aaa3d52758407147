#!/bin/sh
# check.sh <property> [tier]
cd "$(dirname "$0")" && exec python3 -B harness/run.py "$@"
