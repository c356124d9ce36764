#!/bin/bash
# Builds the extractor (libTooling) into /verif/build.
set -e
d=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$d/build"
if [ ! -x "$d/build/lpx" ] || [ "$d/tool/extract.cpp" -nt "$d/build/lpx" ]; then
  clang++ -O1 $(llvm-config --cxxflags) -std=c++17 -fno-rtti "$d/tool/extract.cpp" -o "$d/build/lpx.tmp.$$" \
    $(llvm-config --ldflags) /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18
  mv "$d/build/lpx.tmp.$$" "$d/build/lpx"
fi
