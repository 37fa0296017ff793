#!/bin/sh
# builds the fact extractor (LibTooling, clang 18) into $1
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=${1:-$here/build/ssfacts}
mkdir -p "$(dirname "$out")"
clang++ -std=c++17 -O1 -w -fno-rtti -I/usr/lib/llvm-18/include "$here/frontend/ssfacts.cpp" -o "$out.tmp" \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
strip "$out.tmp"
mv "$out.tmp" "$out"
