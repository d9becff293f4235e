#!/bin/bash
# builds the symbolic executor (needs only the LLVM 18 and Z3 development files of the sandbox)
cd "$(dirname "$0")" || exit 2
mkdir -p build
if [ ! -x build/msym ] || [ engine/msym.cpp -nt build/msym ]; then
  g++ -O2 -g0 -std=c++17 $(llvm-config --cxxflags | sed 's/-fno-exceptions//; s/-std=c++17//') -fexceptions engine/msym.cpp -o build/msym.tmp.$$ \
    $(llvm-config --ldflags --libs core irreader bitreader support) -lz3 -lpthread && mv build/msym.tmp.$$ build/msym
fi
