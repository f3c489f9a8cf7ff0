#!/bin/bash
# tests/try.sh OUT "defs" src... : parallel compile + link (development aid)
out=$1; shift
cd "$(dirname "$0")/.."
F="-std=c++20 -O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I${REPO:-/repo}/include"
mkdir -p $out
[ engine.cpp -ot $out/engine.o ] && [ engine.hpp -ot $out/engine.o ] || clang++-18 $F -c engine.cpp -o $out/engine.o &
src=$1; shift; defs=$1; shift
n=0
for p in "$@"; do clang++-18 $F $defs -DPART=$p -c tests/$src -o $out/p$p.o & done
wait
clang++-18 $F $out/engine.o $(for p in "$@"; do echo $out/p$p.o; done) -o $out/bin
