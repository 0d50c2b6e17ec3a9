#!/bin/bash
# ./check.sh PROPERTY [quick|thorough]    decide one property against /repo's working tree
# ./check.sh replay FILE                  repeat a reported run
# Exit 0: held on everything explored. Exit 1: VIOLATION line. 2: the check itself failed.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$here/sim/target"
cd "$here/sim" || exit 2
if ! out="$(cargo build --offline --locked 2>&1)"; then
    printf '%s\n' "$out" | grep -v '^warning' | tail -60 >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
[ "${1-}" = build ] && exit 0
bin="$CARGO_TARGET_DIR/debug/sim"
cd "$here" || exit 2
case "${1-}" in
    replay) exec "$bin" replay "$2" ;;
    *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
