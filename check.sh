#!/bin/bash
# usage: check.sh <property id>     (exit 0: held, 1: VIOLATION printed, 2: analysis broken)
cd "$(dirname "$0")"
exec python3 -u engine/run.py "$1"
