#!/bin/bash
# Builds the MIR dump driver and the dependency metadata the checks reuse (offline).
set -e
cd "$(dirname "$0")"
export PATH=$PATH:/root/.cargo/bin
mkdir -p build evidence
CARGO_TARGET_DIR=$PWD/build/drv cargo +nightly build --release --offline --manifest-path driver/Cargo.toml
bash engine/dump.sh "$PWD/build/setup_a.json"
bash engine/dump.sh "$PWD/build/setup_b.json" --no-default-features
rm -f build/setup_a.json build/setup_b.json
