#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build).
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}
mkdir -p "$OUT"
OUT=$(cd "$OUT" && pwd)
H=$(cat *.cpp *.h build.sh | sha256sum | cut -d' ' -f1)
ok() { [ -x "$OUT/symex" ] && [ -x "$OUT/symex-instr" ] && [ "$(cat "$OUT/symex.hash" 2>/dev/null)" = "$H" ]; }
ok && exit 0
(
  flock 9
  ok && exit 0
  L=/usr/lib/llvm-18
  for f in expr exec instr; do
    g++ -std=c++17 -O2 -g1 -w -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $f.cpp -o "$OUT/$f.o" &
  done
  wait
  g++ "$OUT/expr.o" "$OUT/exec.o" -o "$OUT/symex.tmp" -L$L/lib -lLLVM-18 -lz3 -Wl,-rpath,$L/lib
  g++ "$OUT/instr.o" -o "$OUT/symex-instr.tmp" -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
  mv "$OUT/symex.tmp" "$OUT/symex"
  mv "$OUT/symex-instr.tmp" "$OUT/symex-instr"
  echo "$H" > "$OUT/symex.hash"
) 9>"$OUT/.lock"
