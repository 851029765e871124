#!/bin/bash
# Regenerates the LLVM IR of /repo's current source together with the harnesses: OUT.ll
set -e
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$V/.build/ir
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings -C save-temps"
rm -f "$V"/.build/ir/debug/deps/hir-*.bc "$V"/.build/ir/debug/deps/libhir* "$V"/.build/ir/debug/deps/hir-*
touch "$V/harness/lib.rs"
(cd "$V/ir" && cargo build --offline -q --locked)
S=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
BC=$(ls "$V"/.build/ir/debug/deps/hir-*.rcgu.bc)
[ $(echo "$BC" | wc -l) = 1 ] || { echo "unexpected IR files: $BC" >&2; exit 3; }
"$S/opt" -passes=globaldce --strip-debug -S "$BC" -o "${1:-$V/.build/hir.ll}"
rm -f "$V"/.build/ir/debug/deps/hir-*.bc
