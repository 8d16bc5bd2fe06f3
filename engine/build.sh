#!/bin/bash
# Builds the fact extractor (needs only the installed clang 18 libraries).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
key=$(sha256sum engine/rstdump.cc | cut -c1-16)
[ -x build/rstdump ] && [ "$(cat build/rstdump.key 2>/dev/null)" = "$key" ] && exit 0
L=/usr/lib/llvm-18
/usr/bin/g++ -O1 -std=c++17 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  engine/rstdump.cc -o build/rstdump.tmp.$$ -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv build/rstdump.tmp.$$ build/rstdump
echo "$key" > build/rstdump.key
