#!/bin/bash
# Builds the monitor once (check.sh rebuilds what changed).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p target evidence
RUSTC_WRAPPER="$PWD/tools/rustc-cov.sh" CARGO_TARGET_DIR="$PWD/target/vmon" \
  cargo build --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1 || { tail -40 target/build.log; exit 1; }
CARGO_TARGET_DIR="$PWD/target/cli" cargo build --offline --manifest-path /repo/Cargo.toml --bin minifier >>target/build.log 2>&1 || { tail -40 target/build.log; exit 1; }
echo built
