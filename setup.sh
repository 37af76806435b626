#!/bin/bash
# Offline sanity check of the toolchain; each check builds its own encoding.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo kani --version
mkdir -p work
RUSTUP_TOOLCHAIN=stable cargo check --offline --manifest-path harness/Cargo.toml --target-dir work/setup
rm -rf "$PWD/work/setup"
