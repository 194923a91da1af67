#!/bin/bash
# Builds the simulator from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2025-04-15 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export CARGO_TARGET_DIR="${MOCKSIM_TARGET:-$PWD/../target}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
exec cargo build --offline -q --target x86_64-unknown-linux-gnu -p mocksim "$@"
