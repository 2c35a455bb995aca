#!/bin/bash
# usage: check.sh ID     builds the simulator against /repo's working tree and decides one property
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "check.sh: build failed"
    exit 2
fi
rm -f "$log"
exec sim/target/release/sim check "$1"
