#!/bin/bash
# Builds the AST tools into /verif/build (no network; LLVM 18 dev files are installed).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
lib=$(ls /usr/lib/llvm-18/lib/libclang-cpp.so.18* | head -1)
one() {
  bin="$out/$1"
  sum="$(sha256sum "$here/$1.cpp" | cut -d' ' -f1)"
  if [ -x "$bin" ] && [ "$(cat "$bin.sum" 2>/dev/null)" = "$sum" ]; then return 0; fi
  tmp="$bin.$$"
  clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$here/$1.cpp" -o "$tmp" "$lib" -L/usr/lib/llvm-18/lib -lLLVM-18
  mv "$tmp" "$bin"
  echo "$sum" > "$bin.sum"
}
one extract & p=$!
one decls
wait $p
