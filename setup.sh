#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
if [ ! -x build/dump ] || [ tool/dump.cpp -nt build/dump ]; then
  clang++-18 -I/usr/lib/llvm-18/include -std=c++17 -O1 -fno-rtti tool/dump.cpp -o build/dump.tmp \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so -Wl,-rpath,/usr/lib/llvm-18/lib || exit 1
  mv build/dump.tmp build/dump
fi
