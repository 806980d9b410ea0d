#!/bin/bash
# builds the IR and the native replay binary from /repo's working tree
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/target
cd /verif/harness && cargo rustc --lib --crate-type staticlib --profile ir -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp && cargo build --bin replay
