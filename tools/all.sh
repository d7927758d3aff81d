#!/bin/bash
# tools/all.sh [tier]: every check, one after another
cd "$(dirname "$0")/.."
for i in $(seq -w 1 22); do python3 run_check.py C$i ${1:-quick} 2>&1 | grep -v "^  " | tail -1 | cut -c1-160; done
