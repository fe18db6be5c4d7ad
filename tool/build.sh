#!/bin/bash
# builds the extractor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/extract.cpp" -o "$1.tmp.$$" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$1.tmp.$$" "$1"
