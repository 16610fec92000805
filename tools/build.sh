#!/bin/bash
# Build the extractor (offline; clang 18 libraries of the sandbox).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ! -x ../build/wsx ] || [ extract.cpp -nt ../build/wsx ]; then
  g++ -O1 -fno-rtti -std=c++17 -I/usr/lib/llvm-18/include extract.cpp -o ../build/wsx.tmp.$$ \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so \
    -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS
  mv ../build/wsx.tmp.$$ ../build/wsx
fi
