#!/bin/bash
# Checks that the tools the checks need are present and that the symbolic executor builds. Each check builds what it needs itself.
set -e
cd "$(dirname "$0")"
RUSTUP_TOOLCHAIN=nightly rustc --version
g++ --version | head -1
./engine/build.sh build/engine
echo ok
