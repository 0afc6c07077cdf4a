#!/bin/bash
# Nothing is compiled: the checks import the code from /repo when they run.  This only verifies the tool chain.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3 run.py --selftest
