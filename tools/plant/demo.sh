#!/bin/bash
# Runs main.rs against the crates of the current directory (the repository). Exit 0: behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/p/src"
sed "s#@REPO@#$PWD#" "$D/Cargo.toml.in" >"$T/p/Cargo.toml"
cp "$PWD/Cargo.lock" "$T/p/Cargo.lock"
cp "$D"/*.rs "$T/p/src/"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS
cd "$T/p" || exit 3
cargo build -q --offline || exit 3
cd "$T" && exec timeout 60 "$T/target/debug/demo"
