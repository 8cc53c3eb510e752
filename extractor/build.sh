#!/bin/bash
# builds the IR extractor (needs only the preinstalled clang 18 development files)
set -e
cd "$(dirname "$0")"
out="${1:-../build/pillow-extract}"
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt extract.cpp ]; then exit 0; fi
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') extract.cpp -o "$out.tmp$$" -L/usr/lib/llvm-18/lib -Wl,--start-group $(ls /usr/lib/llvm-18/lib/libclang[A-Z]*.a) -Wl,--end-group -lLLVM-18
mv "$out.tmp$$" "$out"
