#!/bin/bash
# Runs one property check:  ./check.sh <PROPERTY_ID> [--tier quick|thorough] [--replay FILE] ...
# Imports the code under test straight from /repo's working tree (override: VERIF_REPO);
# nothing is cached between runs and nothing is written outside /verif and a scratch folder.
HERE="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY="$(command -v python3)"
SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export VERIF_HOME="$HERE" VERIF_SCRATCH="$SCRATCH" VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export PYTHONWARNINGS=ignore MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" HOME="$SCRATCH"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
mkdir -p "$SCRATCH/mpl" "$SCRATCH/pyc"
cd "$SCRATCH" || exit 2
"$PY" "$HERE/harness/run.py" "$@"
exit $?
