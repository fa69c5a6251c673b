#!/bin/bash
# builds the symbolic engine into /verif/build/vpsym
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/vpsym -nt vpsym.cpp ] && [ ../build/vpsym -nt vpinterp.inc ] && [ ../build/vpsym -nt build.sh ]; then exit 0; fi
clang++-18 -std=c++17 -O2 -g1 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  vpsym.cpp -o ../build/vpsym.tmp.$$ -rdynamic -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -ldl
mv ../build/vpsym.tmp.$$ ../build/vpsym
