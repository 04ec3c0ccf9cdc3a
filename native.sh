#!/bin/bash
# native.sh FEATURES OUT.so : the harnesses as ordinary machine code, for replays
set -e
OUTF=$(realpath -m "$2")
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${BUILD:-/verif/build}/native CARGO_INCREMENTAL=0
unset RUSTFLAGS
cargo rustc --profile replay --offline --locked --lib --features "$1" --crate-type cdylib -- -Clink-arg=-Wl,-Bsymbolic
f=$(ls -t "$CARGO_TARGET_DIR"/replay/libtwharness.so | head -1)
cp "$f" "$OUTF"
