#!/bin/bash
# builds the extractor and the bounded-replay harness (both are rebuilt incrementally by every check anyway)
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
(cd vx && cargo build --offline -q)
for h in harness harness_wasm; do
  [ -d $h ] && (cd $h && RUSTUP_TOOLCHAIN=nightly-2025-12-19 RUSTFLAGS="--cfg verif_hooks" cargo build --offline -q --bins) || true
done
mkdir -p evidence work
