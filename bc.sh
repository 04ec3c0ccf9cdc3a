#!/bin/bash
# bc.sh FEATURES OUT : compiles the harnesses and everything they reach, from /repo's working tree, to LLVM bitcode;
# OUT.d/list names the pieces, which `symx --link OUT.d/list OUT` puts together
set -e
OUTF=$(realpath -m "$2"); ENG=$(realpath "$(dirname "$0")/engine")
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${BUILD:-/verif/build}/symx CARGO_INCREMENTAL=0
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C linker-plugin-lto -C linker=$ENG/ldlist.sh"
export SYMX_LINK_DIR="$OUTF.d"
rm -rf "$SYMX_LINK_DIR"; rm -f "$CARGO_TARGET_DIR"/x86_64-unknown-linux-gnu/symx/deps/libtwharness.so "$CARGO_TARGET_DIR"/x86_64-unknown-linux-gnu/symx/libtwharness.so
cargo rustc --profile symx --offline --locked --lib --features "$1" --target x86_64-unknown-linux-gnu --crate-type cdylib -- --cfg "build_$(date +%s%N)"
test -s "$SYMX_LINK_DIR/list"
