#!/bin/bash
# builds the simulator from the committed files, offline
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
cargo build --release --offline --manifest-path sim/Cargo.toml
