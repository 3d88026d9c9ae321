#!/bin/bash
# Warms the build of every check; each check also builds what it needs itself.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$VERIF_DIR/target"
cd "$VERIF_DIR/mc" || exit 1
cargo build --offline --release -p checks --bins || exit 1
if ls zc/src/bin/*.rs >/dev/null 2>&1; then
  cargo build --offline --profile opt -p zc --bins || exit 1
fi
exit 0
