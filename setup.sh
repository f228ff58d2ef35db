#!/bin/bash
# Builds everything once.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$V/tools/build.sh" lib || exit 1
"$V/.build/drv/debug/pica-sim" selftest
