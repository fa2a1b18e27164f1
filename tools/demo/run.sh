#!/bin/bash
# run.sh NAME: compiles and runs one demonstration against /repo as it is built
cd /repo; mkdir -p /tmp/d; X=""; grep -q 'extra:' /verif/tools/demo/d/$1.cpp && X=$(sed -n 's/.*extra: //p' /verif/tools/demo/d/$1.cpp | head -1)
g++ -std=c++17 -g -I/verif/tools/demo -Iinclude -I_build/include /verif/tools/demo/d/$1.cpp _build/lib/librotor.a $X -o /tmp/d/$1 && timeout 100 /tmp/d/$1; echo "$1 rc=$?"
