#!/bin/bash
# run with cwd /repo, after the build
H=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d)
g++ -std=c++17 -g -I"$H" -Iinclude -I_build/include "$H/demo.cpp" _build/lib/librotor.a -o "$O/demo" EXTRA || { rm -rf "$O"; exit 3; }
ENVS timeout 60 "$O/demo" >"$O/log" 2>&1
rc=$?
tail -5 "$O/log"
rm -rf "$O"
exit $rc
