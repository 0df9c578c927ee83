#!/bin/bash
# check.sh <property>: build the simulator for that property from /repo's
# working tree and run it. VERIF_TIER (quick|thorough) and VERIF_SEED are
# honoured. Exit 0 held, 1 violated (VIOLATION line), 2 no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
case "$id" in
C0[1-9] | C1[0-4] | C2[34]) eng=conc bin="$here/sim/conc/target/x86_64-unknown-linux-gnu/debug/simc" build="$here/sim/build_simc.sh" ;;
C1[5-9] | C2[015]) eng=io bin="$here/sim/io/target/debug/simio" build="$here/sim/build_simio.sh" ;;
*) echo "unknown property $id"; exit 2 ;;
esac
mkdir -p "$here/evidence" "$here/replays"
if ! bash "$build"; then
  echo "check $id: the simulator does not build against /repo"
  exit 2
fi
"$bin" check "$id" --tier "$tier" --seed "$seed" --evidence "$here/evidence/$id.json" --replays "$here/replays"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) echo "check $id: no verdict ($rc)"; exit 2 ;; esac
