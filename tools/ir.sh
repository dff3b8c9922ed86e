#!/bin/sh
# Build the harness crate to one LLVM IR file from /repo's working tree.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/ir
export RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"
cd /verif/harness && cargo build --release --offline 2>&1
