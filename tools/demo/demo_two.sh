#!/bin/bash
# run with cwd /repo after build.sh; exit 0 when the behaviour is right.  Builds the library with reduced and with full accumulators in a scratch
# directory and compares what the demonstration prints.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
F="-O1 -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks"
for m in OFF ON; do
(cmake -S . -B "$T/$m" -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc "-DCMAKE_CXX_FLAGS=$F" "-DCMAKE_C_FLAGS=$F" -DROUND_MODE=UP -DFULL_ACCU=$m && ninja -C "$T/$m" mli) > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
g++ -std=c++17 -O1 -w -I"$D" -Iinclude -Iinclude/api -Iinclude/internal "$D/demo.cc" "$T/$m/bin/libmli.a" -lm -o "$T/demo$m" || exit 2
timeout 120 "$T/demo$m" > "$T/out$m" || exit 2
done
paste "$T/outOFF" "$T/outON" | awk '{d = $1 - $2; if (d < 0) d = -d; if (d > 1) { print "element " NR ": " $1 " with reduced, " $2 " with full accumulators"; bad = 1 }} END { exit bad || NR == 0 }'
