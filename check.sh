#!/bin/bash
# check.sh <property> [thorough]: build the simulator against /repo's working tree and run the property's check
# check.sh build: build only
cd /verif/sim || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target
if ! cargo build --release >/tmp/antlr-sim-build.$$ 2>&1; then
    grep -E -A12 '^error' /tmp/antlr-sim-build.$$ | head -60
    rm -f /tmp/antlr-sim-build.$$
    echo "error: the simulator does not build against /repo"
    exit 2
fi
rm -f /tmp/antlr-sim-build.$$
[ "$1" = build ] && exit 0
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec /verif/target/release/antlr-sim check "$1"
