#!/bin/bash
# usage: check.sh <property id> [--thorough] [--replay FILE]
# Rebuilds the harness against /repo's working tree and runs one property's exploration.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: error of the check.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=-Awarnings
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$here/harness/target"
export MC_VERIF="$here"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
feat=
[ "$bin" = c21 ] && feat="--features store"
log=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path "$here/harness/Cargo.toml" --bin "$bin" $feat >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "check $id: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
