#!/bin/bash
# check.sh ID           runs the check of a property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE  runs the case of a replay file again
# check.sh build        builds everything
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
bin=vt
what="$1"
[ "$1" = replay ] && what=$(basename "$2")
case "$what" in C19*) bin=vt_canvas ;; esac
bins="--bin $bin"
[ "$1" = build ] && bins="--bins"
if ! log=$(cd harness && cargo build --release --offline $bins 2>&1); then
    echo "$log" | tail -60 >&2
    echo "error: the harness does not build" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
case "$1" in
    replay) exec "$CARGO_TARGET_DIR/release/$bin" replay "$2" ;;
    *) exec "$CARGO_TARGET_DIR/release/$bin" check "$1" ;;
esac
