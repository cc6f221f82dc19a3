#!/bin/bash
# Builds the extractor into $1.
exec /usr/bin/g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$(dirname "$0")/dartx.cc" -o "$1" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
