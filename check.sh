#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER)
# Rebuilds the harness against /repo's working tree, then searches for a violation of the property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS
log="$here/target/build-$$.log"
mkdir -p "$here/target" "$here/evidence"
# the hook (one setter) is optional: if a change makes it not compile, everything else still runs
if ! RUSTFLAGS="--cfg yamux_verif" cargo build --release --offline >"$log" 2>&1; then
    if ! RUSTFLAGS="" cargo build --release --offline >>"$log" 2>&1; then
        echo "error: the harness does not build against /repo" >&2
        tail -60 "$log" >&2
        rm -f "$log"
        exit 2
    fi
fi
rm -f "$log"
[ "${1:-}" = build ] && exit 0
# workers run a copy, so that a rebuild for another check does not replace the binary under them
exe="$here/target/yv-$$"
cp "$CARGO_TARGET_DIR/release/yv" "$exe" || exit 2
YV_ROOT="$here" "$exe" check "$1"
code=$?
rm -f "$exe"
exit $code
