#!/bin/bash
# nothing to build: check that the interpreter, numpy and the code under test are importable
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}/src:$PWD" MPLBACKEND=Agg MPLCONFIGDIR=/tmp \
    /opt/venv/bin/python -W ignore -c 'import CTL.tensor.tensor, mc.core, numpy; print("setup ok")'
