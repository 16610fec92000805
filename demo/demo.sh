#!/bin/bash
# builds demo.cpp (beside this script) against the library built in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
LIB=$(find "$R/_build/src" -name 'libwsrep-lib.a' | head -1)
[ -f "$LIB" ] || { echo "library not built"; exit 2; }
g++ -std=gnu++11 -g -O0 -I"$R/include" -I"$R/src" -I"$here" "$here/demo.cpp" -o "$T/demo" "$LIB" \
    -lpthread -ldl -no-pie -Wl,--warn-unresolved-symbols 2>"$T/err" || { cat "$T/err"; exit 2; }
cd "$T" && timeout 120 ./demo
