#!/bin/bash
# Builds the fact exporter into /verif/.cache/bin (git-ignored). Skips when up to date.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${LMS_CACHE:-$here/../.cache}/bin
mkdir -p "$out"
sum=$(sha256sum "$here/lmsfacts.cpp" | cut -c1-32)
if [ -x "$out/lmsfacts" ] && [ "$(cat "$out/lmsfacts.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp="$out/lmsfacts.$$"
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w \
  "$here/lmsfacts.cpp" -o "$tmp" $L/lib/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$tmp" "$out/lmsfacts"
echo "$sum" > "$out/lmsfacts.sum"
