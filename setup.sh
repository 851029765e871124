#!/bin/bash
# builds the engine, the IR of /repo and the native replay binary
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p .build evidence
(cd symir && cargo build --release --offline -q --locked) && bash build_ir.sh && cd native && RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings" CARGO_TARGET_DIR=../.build/native cargo build --offline -q --locked
