#!/bin/bash
# Builds demo.rs against /repo's current sources and runs it (exit 0: behaviour as specified).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf -- "${t:?}"' EXIT
cp -r "$here/kit" "$here/demo.rs" "$t/"
cd "$t/kit"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS
cargo build --offline --locked -q -p demo || exit 3
"$t/target/debug/demo"
