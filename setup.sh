#!/bin/bash
# Warm the build: the checks themselves rebuild from /repo's working tree.
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 -B harness/run.py --setup
