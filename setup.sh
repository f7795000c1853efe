#!/bin/bash
# Builds the monitors once, so that checks only rebuild what depends on /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_TARGET_DIR
mkdir -p "$here/work" "$here/evidence" "$here/replays"
cd "$here/harness" || exit 1
RUSTUP_TOOLCHAIN=stable cargo build --release --offline --locked --target-dir "$here/harness/target" || exit 1
RUSTUP_TOOLCHAIN=stable cargo build --release --offline --locked --target-dir "$here/harness/target-noraii" --no-default-features || exit 1
RUSTFLAGS=-Zsanitizer=address RUSTUP_TOOLCHAIN=nightly cargo build --release --offline --locked --target-dir "$here/harness/target-asan" --target x86_64-unknown-linux-gnu || exit 1
