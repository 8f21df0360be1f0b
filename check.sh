#!/bin/bash
# check.sh <property> [quick|thorough] [extra arguments of `congee-sim check`]
# Builds /repo's working tree under the simulator and searches for violations.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
"$here/sim/build.sh" || { echo "cannot build /repo under the simulator" >&2; exit 2; }
T=${SIM_TARGET:-$here/sim/target}
scratch="$(mktemp -d /tmp/congee-sim.XXXXXX)"
"$T/rel/x86_64-unknown-linux-gnu/rel/congee-sim" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$here" --scratch "$scratch" \
  --rel "$T/rel/x86_64-unknown-linux-gnu/rel/congee-sim" \
  --chk "$T/chk/x86_64-unknown-linux-gnu/chk/congee-sim" "$@"
rc=$?
rm -rf "$scratch"
exit $rc
