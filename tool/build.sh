#!/bin/bash
# Builds the fact extractor (offline) into /verif/build.
set -eu
here=$(cd "$(dirname "$0")" && pwd); out=$(cd "$here/.." && pwd)/build
mkdir -p "$out"
src="$here/l2facts.cpp"; bin="$out/l2facts"
sum=$(sha256sum "$src" | cut -d' ' -f1)
if [ -x "$bin" ] && [ "$(cat "$bin.sum" 2>/dev/null || true)" = "$sum" ]; then exit 0; fi
tmp="$out/l2facts.$$"
clang++ -std=c++17 -O1 -fno-rtti -DNDEBUG -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-18/include "$src" -o "$tmp" \
  -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$bin"; echo "$sum" > "$bin.sum"
