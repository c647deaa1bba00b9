#!/bin/bash
# builds the dumper into $1
set -e
d=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$(dirname "$out")"
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$d/dumper.cpp" -o "$out.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
mv "$out.tmp.$$" "$out"
