#!/bin/bash
# builds the analyser (once); safe to call concurrently
set -e
cd "$(dirname "$0")"
mkdir -p ../build
exec 9>../build/.lock; flock 9
H=$(cat *.hpp *.inc *.cpp build.sh | sha256sum | cut -d' ' -f1)
[ -x ../build/gva ] && [ "$(cat ../build/gva.hash 2>/dev/null)" = "$H" ] && exit 0
g++ -std=gnu++17 -fext-numeric-literals -O2 -w -fno-fast-math -ffp-contract=off -I$(llvm-config-18 --includedir) main.cpp -o ../build/gva.tmp -L$(llvm-config-18 --libdir) -lLLVM-18 -lquadmath -lpthread
mv ../build/gva.tmp ../build/gva; echo $H > ../build/gva.hash
