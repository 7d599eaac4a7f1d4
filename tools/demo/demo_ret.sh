#!/bin/bash
# run with cwd /repo after build.sh; exit 0 when the behaviour is right.  Builds the library with return codes in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
F="-O1 -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks"
(cmake -S . -B "$T/b" -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc "-DCMAKE_CXX_FLAGS=$F" "-DCMAKE_C_FLAGS=$F" -DROUND_MODE=UP -DFULL_ACCU=OFF -DMLI_DEBUG_MODE=DBG_MODE_RET_CODES && ninja -C "$T/b" mli) > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
g++ -std=c++17 -O1 -w -I"$D" -Iinclude -Iinclude/api -Iinclude/internal "$D/demo.cc" "$T/b/bin/libmli.a" -lm -o "$T/demo" || exit 2
timeout 120 "$T/demo"
