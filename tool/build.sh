#!/bin/bash
# Builds the AST front end into /verif/build (git-ignored). Offline, ~1 min.
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build; mkdir -p "$out"
sum=$(sha256sum "$here/mara_ast.cpp" | cut -d' ' -f1)
if [ -x "$out/mara-ast" ] && [ "$(cat "$out/mara-ast.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
tmp=$(mktemp "$out/mara-ast.XXXXXX")
/usr/lib/llvm-18/bin/clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   -I/usr/lib/llvm-18/include "$here/mara_ast.cpp" -o "$tmp" \
   -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
chmod +x "$tmp"; mv "$tmp" "$out/mara-ast"; echo "$sum" > "$out/mara-ast.sum"
