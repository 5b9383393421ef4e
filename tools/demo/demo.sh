#!/bin/bash
# exit 0: the property holds in the histories tried; nonzero: it does not
HERE=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 99; trap 'rm -rf "$W"' EXIT
CC=gcc-11; CXX=g++-11; command -v $CC >/dev/null || { CC=gcc; CXX=g++; }
F="-O2 -DNDEBUG -march=native -w -Iinclude -Iinclude/wormhole"
for f in kv lib wh wh_int; do $CC -std=gnu11 $F -c include/wormhole/$f.c -o "$W/$f.o" || exit 99; done
$CXX -std=gnu++17 $F "$HERE/demo.cpp" "$W"/*.o -lpthread -o "$W/demo" || exit 99
MODE=$(cat "$HERE/mode")
timeout 250 "$W/demo" $MODE
