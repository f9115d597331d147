#!/bin/bash
# Test the engine on claims with known answers.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=
(cd ../engine && CARGO_TARGET_DIR="$PWD/target" cargo build --release --offline -q)
export CARGO_TARGET_DIR=../.build/selftest
cargo rustc --offline -q --release --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
cargo build --offline -q --bin replay
exec python3 run.py
