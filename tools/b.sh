#!/bin/bash
# builds the extractor by hand
cd "$(dirname "$0")/.." && RUSTFLAGS="-A warnings" cargo build --release --offline -q --manifest-path vx/Cargo.toml --target-dir build/vx
