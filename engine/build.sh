#!/bin/bash
# builds the engine into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p ../build
/usr/bin/clang++-18 -std=c++17 -O1 tmsym.cpp -o ../build/tmsym.tmp.$$ -I/usr/lib/llvm-18/include \
  -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -lz3 -lpthread -fno-rtti -w && mv ../build/tmsym.tmp.$$ ../build/tmsym
