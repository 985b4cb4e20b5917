#!/bin/bash
# Builds the extractor and the replay harness (every check also builds what it needs by itself).
cd "$(dirname "$0")"
CARGO_TARGET_DIR=target/vx cargo build --release --offline --quiet --manifest-path vx/Cargo.toml || exit 1
CARGO_TARGET_DIR=target/harness cargo build --release --offline --quiet --manifest-path harness/Cargo.toml || exit 1
mkdir -p evidence work
