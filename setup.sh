#!/bin/bash
# Nothing to build: verify that the interpreter, the sources under test and the reference model are usable.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replay
export NUMGA_REPO=${NUMGA_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=$NUMGA_REPO:$PWD /opt/venv/bin/python -m vf.selftest
