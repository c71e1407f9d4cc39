#!/bin/bash
# Builds the harness once from the committed files, offline.
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target RUSTFLAGS="--cfg tokio_unstable --cfg rkv_hooks -Awarnings" CARGO_INCREMENTAL=0
cargo build --offline --manifest-path harness/Cargo.toml --bins && exec cargo build --offline --manifest-path proxybin/Cargo.toml
