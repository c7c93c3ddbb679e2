#!/bin/bash
# run.sh <ID> [--replay FILE | --seed N | --tier quick|thorough | --only WORKLOAD]
# Runs one property's monitors against /repo's current working tree (pure Python: nothing to build).
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
mod="checks.$(echo "$id" | tr 'A-Z' 'a-z')"
pyc="$(mktemp -d "${TMPDIR:-/tmp}/vpyc.XXXXXX")"
trap 'rm -rf "$pyc"' EXIT
export PYTHONPYCACHEPREFIX="$pyc" PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_REPO_SRC="${VERIF_REPO_SRC:-/repo/src}"
export PYTHONPATH="$VERIF_REPO_SRC:$here:$here/lib"
cd "$here" || exit 2
/opt/venv/bin/python "$here/lib/harness.py" "$mod" "$@"
exit $?
