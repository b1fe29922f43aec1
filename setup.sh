#!/bin/bash
# Build the executor once, as a check that the toolchain works; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
unset RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/.build/engine" exec cargo build --release -q --manifest-path engine/Cargo.toml
