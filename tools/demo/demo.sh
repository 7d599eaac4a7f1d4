#!/bin/bash
# run with cwd /repo after build.sh; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I"$D" -Iinclude -Iinclude/api -Iinclude/internal -Ilib/src/private "$D/demo.cc" _build/up/bin/libmli.a -lm -o "$T/demo" || exit 2
timeout 120 "$T/demo"
