#!/bin/bash
# usage: expand.sh REPO OUTDIR CRATE...  - the compiler's own macro expansion of the crates, from the current source
R=$1; O=$2; shift 2
mkdir -p "$O"
export RUSTUP_TOOLCHAIN=nightly-2025-12-19 CARGO_NET_OFFLINE=true PATH="$PATH:/root/.cargo/bin"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
for c in "$@"; do
  (cd "$R" && cargo rustc --offline -q -p "$c" --lib --profile check --target-dir "$O/target" -- -Zunpretty=expanded) > "$O/$c.rs.new" 2> "$O/$c.err" || exit 1
  mv "$O/$c.rs.new" "$O/$c.rs"
done
