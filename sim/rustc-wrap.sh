#!/bin/bash
# RUSTC_WRAPPER: compiles congee and the crate that instantiates its generics
# with ThreadSanitizer's instrumentation pass (and no TSan runtime: the calls it
# inserts before every memory access land in the simulator, sim/rt).
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  congee|subject)
    exec "$rustc" "$@" --cap-lints allow --cfg congee_sim -Zsanitizer=thread -Zexternal-clangrt \
      -Zshare-generics=no -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
  crossbeam_epoch)
    if [ -n "$SIM_SMALL_BAGS" ]; then exec "$rustc" "$@" --cap-lints allow --cfg crossbeam_sanitize; fi
    exec "$rustc" "$@" ;;
  *) exec "$rustc" "$@" ;;
esac
