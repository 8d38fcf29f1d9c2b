#!/bin/bash
# Builds every explorer once, offline, from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=-Awarnings
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
exec cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" --bins --features store
