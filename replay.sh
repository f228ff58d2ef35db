#!/bin/bash
# replay.sh FILE: builds pica from /repo's working tree and replays one case.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$V"
f="$(realpath "$1")"
bash "$V/tools/build.sh" lib || exit 70
if grep -q '"harness": "libsim"' "$f"; then
    exec "$V/.build/lib/debug/pica-libsim" replay "$f"
fi
exec "$V/.build/drv/debug/pica-sim" replay "$f"
