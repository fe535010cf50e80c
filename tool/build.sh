#!/bin/bash
# build.sh OUTBIN : builds the fact exporter (clang 18 libTooling)
set -e
D=$(cd "$(dirname "$0")" && pwd)
CXX=/usr/lib/llvm-18/bin/clang++; [ -x $CXX ] || CXX=clang++-18
$CXX -std=c++17 -O1 -fno-rtti -fno-exceptions -DNDEBUG -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -D_GNU_SOURCE \
  "$D/exporter.cpp" -o "$1" $EXTRA /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
