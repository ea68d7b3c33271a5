#!/bin/bash
# Builds everything the checks use (each check also rebuilds what it needs).
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${PBT_TARGET:-$PWD/harness/target}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cargo build --offline --manifest-path harness/Cargo.toml --workspace
