#!/bin/bash
# build.sh OUT : builds the extractor against the installed clang 18 libraries
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
g++ -O1 -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w cxx2ir.cpp -o "$1.tmp" -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv "$1.tmp" "$1"
