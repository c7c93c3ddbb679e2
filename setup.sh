#!/bin/bash
# Nothing to build (pure Python); verify that what the checks need is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO_SRC:-/repo/src}" /opt/venv/bin/python -c "import numpy, CTL.tensor.tensor; print('numpy', numpy.__version__)"
