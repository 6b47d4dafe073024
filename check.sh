#!/bin/bash
# check.sh ID: builds posim against /repo and runs the check of one property (VERIF_SEED, VERIF_TIER).
here=$(cd "$(dirname "$0")" && pwd)
kind=; [ "$1" = C19 ] && kind=steps
bash "$here/build.sh" $kind || exit 2
POSIM_ROOT=$here exec "$here/sim/target/$kind/release/posim" check "$1"
