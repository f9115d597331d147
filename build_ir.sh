#!/bin/bash
# Build the solver, the encoding (LLVM IR of the code in /repo and of the harnesses), and the native replay.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=
(cd engine && CARGO_TARGET_DIR="$PWD/target" cargo build --release --offline -q)
cd harness
CARGO_TARGET_DIR=../.build/ir cargo rustc --offline -q --release --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp &
one=$!
CARGO_TARGET_DIR=../.build/replay cargo build --offline -q --bin replay
wait $one
