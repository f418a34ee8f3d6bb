#!/bin/bash
# Builds the harness together with the code under test; leaves the merged IR and the shared object
# (the same code, natively) in $1. $2 = "parser" adds the parser harnesses (and the hook they use).
set -e
out="$1"
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${HARNESS_TARGET:-$PWD/target}"
export RUSTFLAGS="--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -Awarnings"
[ "$2" = parser ] && RUSTFLAGS+=" --cfg lolcode_verif"
rm -f "$CARGO_TARGET_DIR"/release/deps/harness*.ll "$CARGO_TARGET_DIR"/release/deps/libharness*.so
touch src/lib.rs
cargo build --release --offline --locked -q
mkdir -p "$out"
ll=( "$CARGO_TARGET_DIR"/release/deps/harness*.ll )
[ ${#ll[@]} -eq 1 ]
cp "${ll[0]}" "$out/harness.ll"
cp "$CARGO_TARGET_DIR"/release/libharness.so "$out/libharness.so"
