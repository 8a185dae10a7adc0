#!/bin/bash
# builds the extractor and the bounded stand-in, offline; every check does the same incrementally
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTFLAGS='-A warnings'
mkdir -p build evidence replays
(cd vx && CARGO_TARGET_DIR=../build/vx cargo build --offline -q --release)
(cd harness && CARGO_TARGET_DIR=../build/harness cargo build --offline -q)
verus --version >/dev/null
echo "setup done"
