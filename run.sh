#!/bin/bash
# usage: run.sh <PROPERTY-ID> [quick|thorough]     decide one property
#        run.sh replay <FILE>                      replay one recorded counterexample, without the explorer
# Only the public API of /repo's current working tree is exercised; nothing is written into /repo.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
SCRATCH=$(mktemp -d) || exit 2
export MPLCONFIGDIR=$SCRATCH/mpl MC_SCRATCH=$SCRATCH
[ -n "$2" ] && [ "$1" != replay ] && export VERIF_TIER=$2
/opt/venv/bin/python -W ignore -m mc.main "$@"
RC=$?
rm -rf "$SCRATCH"
exit $RC
