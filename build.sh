#!/bin/bash
# Builds the simulator from /repo's working tree (cargo compares mtimes only, so those crates are always rebuilt).
cd "$(dirname "$0")/sim" || exit 2
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=target RUSTFLAGS="--cap-lints warn" CARGO_INCREMENTAL=0
for c in stacks-rs stacks_derive simctl; do
  for d in target/release/.fingerprint/"$c"-*; do
    [ -d "$d" ] && rm -rf "$d"
  done
done
log=$(mktemp)
if ! cargo build --release --offline --locked >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
