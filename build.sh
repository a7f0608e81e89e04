#!/bin/bash
# build.sh [property]: builds the harness against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
cd "$here/harness" && cargo build --offline --locked || exit 3
case "$1" in
  ""|P10) cd "$here/harness-seq" && cargo build --offline --locked || exit 3;;
esac
