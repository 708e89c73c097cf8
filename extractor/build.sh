#!/bin/sh
# builds the extractor (offline; only needs the installed LLVM 18)
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/../bin"
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include "$here/extract.cpp" -o "$here/../bin/rrj-extract.new" \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$here/../bin/rrj-extract.new" "$here/../bin/rrj-extract"
