#!/bin/bash
# build the symbolic executor: build.sh OUTDIR
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
L=/usr/lib/llvm-18
pids=()
for f in core libc main; do
	if [ ! -f "$out/$f.o" ] || [ "$here/$f.cpp" -nt "$out/$f.o" ] || [ "$here/core.h" -nt "$out/$f.o" ]; then
		g++ -O2 -std=c++17 $($L/bin/llvm-config --cppflags) -c "$here/$f.cpp" -o "$out/$f.o.tmp$$" && mv "$out/$f.o.tmp$$" "$out/$f.o" &
		pids+=($!)
	fi
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$out"/core.o "$out"/libc.o "$out"/main.o -L$L/lib -lLLVM-18 -lz3 -o "$out/symx.tmp$$"
mv "$out/symx.tmp$$" "$out/symx"
