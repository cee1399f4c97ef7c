#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED and VERIF_TIER from the environment)
# Builds the simulator together with the library from /repo's working tree, then searches.
cd "$(dirname "$0")" || exit 3
here=$PWD
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
log=$(mktemp)
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build against /repo" >&2
    exit 3
fi
rm -f "$log"
[ -z "$1" ] && exit 0
exec "$CARGO_TARGET_DIR/release/rsim" check --prop "$1" --verif "$here"
