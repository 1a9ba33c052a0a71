#!/bin/bash
# rustc wrapper: thread instrumentation for the library and the threads that share it,
# and for nothing else (the yields are in mc/sched/src/hooks.rs)
rustc="$1"
shift
name=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  neure|mc_thr)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg mc_instrumented ;;
  mc_*) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$rustc" "$@"
