#!/bin/bash
# Builds the fact extractor into /verif/build (ignored by git). Safe to run concurrently.
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$D/build"
exec 9>"$D/build/.lock"; flock 9
SRC="$D/analyzer/extract.cpp"
H=$(sha256sum "$SRC" | cut -c1-16)
if [ -x "$D/build/extract" ] && [ "$(cat "$D/build/extract.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
g++ -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include "$SRC" -o "$D/build/extract.tmp" \
  -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18
mv "$D/build/extract.tmp" "$D/build/extract"
echo "$H" > "$D/build/extract.hash"
