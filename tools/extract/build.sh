#!/bin/bash
# builds the extractor into $1 (default /verif/build/hvx)
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="${1:-$here/../../build/hvx}"; mkdir -p "$(dirname "$out")"
clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/extract.cpp" -o "$out.tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out.tmp" "$out"
