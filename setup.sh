#!/bin/bash
# Builds the symbolic executor (every check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$PWD/build/engine cargo build --release --offline --manifest-path symex/Cargo.toml
