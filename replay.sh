#!/bin/bash
# replay.sh <replays/ID.case>: rebuilds /repo's working tree under the simulator and runs
# exactly that program, schedule and fault trace again. Exit 1: it fails again.
here="$(cd "$(dirname "$0")" && pwd)"
f="$(realpath "$1")" || exit 2
"$here/sim/build.sh" || exit 2
T=${SIM_TARGET:-$here/sim/target}
scratch="$(mktemp -d /tmp/congee-sim.XXXXXX)"
"$T/rel/x86_64-unknown-linux-gnu/rel/congee-sim" show-replay "$f" --scratch "$scratch" \
  --rel "$T/rel/x86_64-unknown-linux-gnu/rel/congee-sim" \
  --chk "$T/chk/x86_64-unknown-linux-gnu/chk/congee-sim"
rc=$?
rm -rf "$scratch"
exit $rc
