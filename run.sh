#!/bin/bash
# run.sh <ID> quick|thorough|replay [file] : builds the harness from /repo's
# working tree and runs one check.
# run.sh setup : builds every harness.
export HOME="${HOME:-/root}"
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$VERIF_DIR/mc" || exit 2
pkg_of() {
  case "$1" in
    P17|P18|P19|P01|P02|P03|P04|P05|P06|P07|P08|P09|P12|P13|P25|P26|P29|P30) echo ast ;;
    P10|P11|P27|P28) echo neu ;;
    P14|P15|P21|P22) echo ctx ;;
    P16|P20) echo val ;;
    P23) echo thr ;;
    P24) echo cfg ;;
    *) echo "" ;;
  esac
}
build() {
  local log
  log=$(cargo build --offline --locked -q "$@" 2>&1)
  if [ $? -ne 0 ]; then
    echo "$log" | tail -40 >&2
    echo "the harness does not build against this tree" >&2
    exit 2
  fi
}
# the threads of P23 in a build of their own, in which atomic operations of the library
# are yield points; where that build does not work, the plain one has to do
instrumented() {
  RUSTC_WRAPPER="$VERIF_DIR/tools/instrument.sh" CARGO_TARGET_DIR="$VERIF_DIR/target/tsan" \
    cargo build --offline --locked -q -p mc-thr >"$VERIF_DIR/target/tsan.log" 2>&1
}
if [ "$1" = setup ]; then
  build --workspace
  instrumented
  exit 0
fi
pkg=$(pkg_of "$1")
[ -n "$pkg" ] || { echo "unknown property $1" >&2; exit 2; }
if [ "$pkg" = thr ] && mkdir -p "$VERIF_DIR/target" && instrumented; then
  exec "$VERIF_DIR/target/tsan/debug/mc-thr" "$@"
fi
build -p "mc-$pkg"
exec "$CARGO_TARGET_DIR/debug/mc-$pkg" "$@"
