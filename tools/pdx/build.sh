#!/bin/bash
# Builds the IR normaliser.  Usage: build.sh OUTPUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/pdx}
cfg=llvm-config-18
clang++-18 -O1 -std=c++17 -fno-rtti -w $($cfg --cxxflags | tr ' ' '\n' | grep -E '^-(I|D)' | tr '\n' ' ') "$here/pdx.cpp" -o "$out.tmp.$$" $($cfg --ldflags) -lLLVM-18 
mv -f "$out.tmp.$$" "$out"
