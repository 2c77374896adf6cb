#!/bin/bash
# bash run.sh <property id> quick|thorough
# Runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export HEXRD_NO_PROGRESS=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
PY=/opt/venv/bin/python
work=$(mktemp -d /tmp/vfrun.XXXXXX)
trap 'rm -rf "$work"' EXIT
export NUMBA_CACHE_DIR=$work/numba HOME=$work TMPDIR=$work
mkdir -p "$work/numba"
# The compiled extensions must be those of the working tree.
bash ./build_ext.sh >"$work/build.log" 2>&1
if [ $? != 0 ]; then
  mkdir -p "out/$id"; cp "$work/build.log" "out/$id/build.log"
  echo "the extensions of /repo do not build"; tail -5 "$work/build.log"
  echo "VIOLATION property=$id replay=out/$id/build.log"
  exit 1
fi
lc=$(echo "$id" | tr A-Z a-z)
PYTHONPATH="$PWD/harness:/repo" $PY -W ignore "checks/$lc.py"
