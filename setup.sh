#!/bin/bash
# Builds the C extension variants from /repo/c and parses every specification.
set -e
cd /verif
mkdir -p build evidence
OMP_NUM_THREADS=1 /opt/venv/bin/python lib/setup.py
