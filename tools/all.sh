#!/bin/sh
# every check on the current tree, in parallel
export PATH=/opt/venv/bin:$PATH
cd "$(dirname "$0")/.."
ls rules | grep -o '^[a-z][0-9][0-9]' | tr a-z A-Z | xargs -P 8 -I{} sh -c 'python check.py {} 2>&1 | tail -8' | grep -v " 0 violated"
