#!/bin/bash
# run.sh <ID> quick|thorough          run a check (builds it from /repo's working tree first)
# run.sh <ID> replay <family:index> [quick|thorough]   re-run exactly one case
# Exit: 0 held, 1 violated, anything else is an error of the check.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never NO_COLOR=1 CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id=$1
mode=${2:-quick}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
case "$id" in
  P20|P21|P22|P23|P24|P25) pkg=zc ;;
  *) pkg=checks ;;
esac
profile=release
case "$id" in
  P11|P14|P15|P20|P21|P22|P23|P24|P25) profile=opt ;;
esac
# What is explored in depth is worth the time to optimize it.
[ "$mode" = thorough ] && [ "$id" != P28 ] && profile=opt # P28 takes longer to compile than to run.
cd "$VERIF_DIR/mc" || exit 2
log=$(mktemp)
if ! cargo build --offline --profile "$profile" -p "$pkg" --bin "$bin" >"$log" 2>&1; then
  tail -n 60 "$log"
  rm -f "$log"
  echo "build of the check failed"
  exit 2
fi
rm -f "$log"
exe="$CARGO_TARGET_DIR/$profile/$bin"
case "$mode" in
  quick|thorough) export VERIF_TIER=$mode; exec "$exe" ;;
  replay) export KIT_REPLAY=$3 VERIF_TIER=${4:-quick}; exec "$exe" ;;
  *) echo "unknown mode $mode"; exit 2 ;;
esac
