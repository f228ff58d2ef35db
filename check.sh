#!/bin/bash
# check.sh ID [quick|thorough]: builds what is needed from /repo's working
# tree and decides one property.  VERIF_SEED picks the seed.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
export VERIF_DIR="$V" VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
case "$id" in
C24 | C25)
    bash "$V/tools/build.sh" lib || exit 70
    exec "$V/.build/lib/debug/pica-libsim" check "$id"
    ;;
*)
    bash "$V/tools/build.sh" || exit 70
    exec "$V/.build/drv/debug/pica-sim" check "$id"
    ;;
esac
