#!/bin/bash
# builds the fact extractor (libTooling) into $1
set -e
cd "$(dirname "$0")"
g++ -w -std=c++17 -fno-rtti -O1 -DNDEBUG -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -I/usr/lib/llvm-18/include \
    extract.cpp -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
