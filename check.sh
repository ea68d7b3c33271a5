#!/bin/bash
# check.sh ID [quick|thorough]: build the harness from /repo's working tree and decide property ID.
# Exit 0 held, 1 VIOLATION, 2 anything else.
cd "$(dirname "$0")" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${PBT_TARGET:-$PWD/harness/target}
export PBT_ROOT=$PWD PBT_KNOWN=$PWD/known_findings.txt
export VERIF_SEED=${VERIF_SEED:-1}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
PKG=$(awk -v id="$ID" '$1==id{print $2}' properties.map)
[ -n "$PKG" ] || { echo "no check for $ID"; exit 2; }
LOG=$(mktemp /tmp/pbt-build.XXXXXX)
PBT_SCRATCH=$(mktemp -d /tmp/pbt-scratch.XXXXXX)
export PBT_SCRATCH
trap 'rm -rf "$LOG" "$PBT_SCRATCH"' EXIT
if ! cargo build --offline --manifest-path harness/Cargo.toml -p "$PKG" >"$LOG" 2>&1; then
    echo "ERROR: build failed"
    tail -40 "$LOG"
    exit 2
fi
for B in $(awk -v id="$ID" '$1==id{for(i=3;i<=NF;i++)print $i}' properties.map); do
    # property needs a command-line tool of the repository: built from /repo's tree into our own target folder
    if ! cargo build --offline --manifest-path harness/Cargo.toml -p "$B" >"$LOG" 2>&1; then
        echo "ERROR: build of $B failed"
        tail -40 "$LOG"
        exit 2
    fi
done
export PBT_BIN_DIR=$CARGO_TARGET_DIR/debug
"$CARGO_TARGET_DIR/debug/$PKG" check "$ID" "$TIER"
RC=$?
case $RC in 0|1|2) exit $RC;; *) echo "ERROR: harness ended with $RC"; exit 2;; esac
