#!/bin/bash
# Builds build/fsmon.so unless it is up to date.
set -eu
here="$(cd "$(dirname "$0")/.." && pwd)"
so="$here/build/fsmon.so"
[ "$so" -nt "$here/shim/fsmon.c" ] && exit 0
mkdir -p "$here/build"
tmp="$so.$$"
gcc -O2 -Wall -shared -fPIC -o "$tmp" "$here/shim/fsmon.c" -ldl
mv "$tmp" "$so"
