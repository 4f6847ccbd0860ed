#!/bin/bash
# Builds the extractor from the committed source (offline). Run in /verif.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/eip-extract ] || [ tools/extract/extract.cpp -nt build/eip-extract ]; then
  g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -I/usr/lib/llvm-18/include tools/extract/extract.cpp -o build/eip-extract.tmp \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
  mv build/eip-extract.tmp build/eip-extract
fi
echo "setup: build/eip-extract ready"
