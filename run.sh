#!/bin/bash
# usage: run.sh PROPERTY quick|thorough|replay [GROUP CASE]
cd "$(dirname "$0")/harness" || exit 1
export VERIF_ROOT="$(cd .. && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/harness/target"
out=$(cargo build --offline --quiet 2>&1) || { echo "$out" | tail -60; echo "the harness does not build against /repo"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/vharness" "$@"
