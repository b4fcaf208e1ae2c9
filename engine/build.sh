#!/bin/bash
# rebuild bin/usym from engine/ (committed together with a stamp of its sources)
set -e
cd "$(dirname "$0")"; mkdir -p ../bin
clang++-18 -std=c++17 -O2 -w -I/usr/lib/llvm-18/include usym.cc -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o ../bin/usym.new
strip ../bin/usym.new && mv ../bin/usym.new ../bin/usym
{ cat usym.cc aig.h sat.h | sha256sum | cut -d' ' -f1; sha256sum < ../bin/usym | cut -d' ' -f1; } > ../bin/usym.sha256
