#!/bin/bash
# Builds demo.c against the library under test and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
gcc -w -std=gnu11 -g -I/repo/MDLIB/include -I/repo/MDLIB -I/usr/include/suitesparse -I/usr/include/hdf5/serial "$D/demo.c" -o "$W/demo" -L/repo/cmake-build/MDLIB -lmdoodz -Wl,-rpath,/repo/cmake-build/MDLIB -Wl,--unresolved-symbols=ignore-in-shared-libs -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lm || exit 3
cp "$D"/*.txt "$W" 2>/dev/null
cd "$W" && timeout 200 ./demo
