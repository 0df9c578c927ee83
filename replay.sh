#!/bin/bash
# replay.sh <replay file>: rebuild and run one recorded schedule again.
here="$(cd "$(dirname "$0")" && pwd)"
if grep -q '^engine simio' "$1"; then
  bash "$here/sim/build_simio.sh" && exec "$here/sim/io/target/debug/simio" replay "$1"
else
  bash "$here/sim/build_simc.sh" && exec "$here/sim/conc/target/x86_64-unknown-linux-gnu/debug/simc" replay "$1"
fi
