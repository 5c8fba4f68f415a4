#!/bin/bash
# Builds the harness against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER
export RUSTFLAGS="--cfg tic_mc"
exec env CARGO_TARGET_DIR=/verif/target cargo build --release --offline "$@"
