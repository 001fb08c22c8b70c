#!/bin/bash
# Nothing to compile: verify that the interpreter and the sources the checks need are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONPATH="${VERIF_REPO:-/repo}/src:." "$PY" -B -c "import torch, numpy, scipy, soundfile, matplotlib, torchrir, vf.core; print('setup ok', torchrir.__file__)"
