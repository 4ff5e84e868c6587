#!/bin/bash
# build.sh TARGET_DIR: compile the harness with the current /repo to one LLVM IR file TARGET_DIR/harness.ll
set -e
T=$1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cd "$(dirname "$0")"
export RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp -Clink-args=-Wl,--unresolved-symbols=ignore-all --cfg rudis_verif -Awarnings"
if [ "$(ls "$T"/release/deps/harness-*.bc 2>/dev/null | wc -l)" != 1 ]; then
  rm -rf "$T"/release/deps/harness-* "$T"/release/.fingerprint/harness-*
fi
cargo rustc --release --offline --target-dir "$T" -- --emit=llvm-bc
S=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
"$S"/llvm-dis "$T"/release/deps/harness-*.bc -o "$T"/harness.ll
