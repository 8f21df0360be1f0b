#!/bin/bash
# Builds the simulator and /repo's working tree, instrumented, in both flavours.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export RUSTFLAGS="-Cunsafe-allow-abi-mismatch=sanitizer -Awarnings"
export CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
T=${SIM_TARGET:-$PWD/target}
b() {
  cargo +nightly -Zchecksum-freshness build --offline --locked --target x86_64-unknown-linux-gnu --profile "$1" --target-dir "$T/$1" --quiet
}
b rel > "$T.rel.log" 2>&1 & p1=$!
SIM_SMALL_BAGS=1 b chk > "$T.chk.log" 2>&1 & p2=$!
r=0
wait $p1 || { cat "$T.rel.log"; r=2; }
wait $p2 || { cat "$T.chk.log"; r=2; }
exit $r
