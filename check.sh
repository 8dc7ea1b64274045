#!/bin/bash
# check.sh <property> [quick|thorough]: build the simulator against /repo's
# current tree and decide one property.  0 held, 1 violated, 2 no answer.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$PWD/target}" VERIF_DIR="${VERIF_DIR:-$PWD}"
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! (cd sim && cargo build --release --offline) >"$log" 2>&1; then
    grep -E '^error' -A8 "$log" | head -60 >&2
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/sim" check "$1" $2
