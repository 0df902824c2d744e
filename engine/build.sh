#!/bin/bash
# builds the analysis engine into /verif/build/sa when it is missing or older than its sources
set -e
cd "$(dirname "$0")"; mkdir -p ../build
if [ ! -x ../build/sa ] || [ sa.cpp -nt ../build/sa ] || [ term.h -nt ../build/sa ]; then
  clang++-18 -O2 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions -fno-rtti -w sa.cpp -o ../build/sa.tmp$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lpthread
  mv ../build/sa.tmp$$ ../build/sa
fi
