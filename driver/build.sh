#!/bin/bash
# Builds the MIR server (a rustc driver) with the nightly toolchain's own libraries; no cargo, no network.
set -eu
cd "$(dirname "$0")"
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTC CARGO_ENCODED_RUSTFLAGS || true
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
SYS=$(rustc +nightly --print sysroot)
mkdir -p target
rustc +nightly --edition 2024 -O -o target/mirserve src/main.rs -L "$SYS/lib" -C link-arg=-Wl,-rpath,"$SYS/lib"
