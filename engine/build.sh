#!/bin/bash
# builds the symbolic executor into $1
set -e
OUT=$(realpath -m "${1:?}")
cd "$(dirname "$0")"
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
TC=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)/lib
L=$(ls "$TC"/libLLVM.so.* | head -1)
FL="-std=c++17 -O2 -w -I$Z/include -I/usr/lib/llvm-18/include"
pids=()
for f in expr solver ir exec; do g++ $FL -c $f.cpp -o "$OUT/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
g++ -o "$OUT/symx" "$OUT"/{expr,solver,ir,exec}.o -Wl,--no-as-needed -lstdc++ -L"$Z/lib" -lz3 "$L" -Wl,-rpath,"$Z/lib" -Wl,-rpath,"$TC"
