#!/bin/bash
# builds the fact extractor into /verif/tool/bin
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
clang++ -O1 -std=c++17 -fno-rtti -fno-exceptions $(llvm-config-18 --cppflags 2>/dev/null || llvm-config --cppflags) -I/usr/lib/llvm-18/include \
  "$here/extract.cpp" -o "$here/bin/kfacts" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -L/usr/lib/x86_64-linux-gnu
