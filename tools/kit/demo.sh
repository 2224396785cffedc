#!/bin/bash
# Builds the libraries needed by demo.cpp from the sources in the current
# directory (the repository) in a scratch directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
for d in "$repo"/lib/*/; do ln -s "${d%/}" "$t/src/$(basename "$d")"; done
cp "$here/CMakeLists.txt" "$t/src/"
if ! { cmake -S "$t/src" -B "$t/b" -G Ninja -DVERIF="$here" -DCMAKE_CXX_COMPILER=clang++ -DDEMO_LIB=@LIB@ -DVFLAGS="@FLAGS@" && ninja -C "$t/b" demo; } > "$t/log" 2>&1; then
  tail -40 "$t/log"; exit 0   # cannot build: not a demonstration of anything
fi
timeout 120 "$t/b/bin/demo"
