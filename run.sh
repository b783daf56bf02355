#!/bin/bash
# bash run.sh <property id> [--replay FILE] [--scale X] : one property-based check.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HYPOTHESIS_NO_PLUGINS=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg TQDM_DISABLE=1
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR"
unset PYTHONPATH
SCRATCH="$(mktemp -d)"
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH"
mkdir -p "$SCRATCH/mpl"
# a copy of the font cache, so that matplotlib does not search the fonts each time
cp -r /opt/vp/mplconfig/. "$SCRATCH/mpl/" 2>/dev/null
export MPLCONFIGDIR="$SCRATCH/mpl"
cd "$HERE" || exit 2
/opt/venv/bin/python -B -X utf8 -W ignore -m pbt.runner "$@"
rc=$?
exit $rc
