#!/bin/bash
# builds the engine into $1 (default /verif/.build/engine)
set -e
cd "$(dirname "$0")"; OUT=${1:-/verif/.build/engine}; mkdir -p "$OUT"
H=$(cat sx.cpp expr.cpp expr.h build.sh | sha256sum | cut -d' ' -f1)
[ -x "$OUT/sx" ] && [ "$(cat "$OUT/hash" 2>/dev/null)" = "$H" ] && exit 0
CX="$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')"
g++ -std=c++17 -O2 $CX -c expr.cpp -o "$OUT/expr.o" & P=$!
g++ -std=c++17 -O2 $CX -c sx.cpp -o "$OUT/sx.o"
wait $P
g++ "$OUT/sx.o" "$OUT/expr.o" -o "$OUT/sx" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
echo "$H" > "$OUT/hash"
