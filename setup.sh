#!/bin/bash
# Builds the harness against /repo's current tree, offline.
cd "$(dirname "$0")/harness" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
exec cargo build --offline --quiet
