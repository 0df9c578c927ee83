#!/bin/bash
# Build every engine once so that the checks start warm.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/sim/build_simc.sh" || exit 1
[ -f "$here/sim/build_simio.sh" ] && { bash "$here/sim/build_simio.sh" || exit 1; }
exit 0
