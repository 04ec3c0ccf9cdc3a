#!/bin/bash
# compiles all harnesses at once (before a commit)
cd "$(dirname "$0")/../harness"; F=$(ls src | grep -oE '^c[0-9]+' | tr '\n' ','); CARGO_TARGET_DIR=/verif/build/chk cargo check --offline --features full,${F%,} 2>&1 | grep -E "^error" -A6 | head -40
