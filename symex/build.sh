#!/bin/bash
# builds /verif/symex/bin/symex
set -e
cd "$(dirname "$0")"; mkdir -p bin
if [ bin/symex -nt symex.cpp ] && [ bin/symex -nt expr.h ] && [ bin/symex -nt ops.h ] && [ bin/symex -nt builtins.h ] && [ bin/symex -nt builtins_list.h ]; then exit 0; fi
g++ -O2 -g1 -std=c++17 -fno-rtti -fexceptions -Wall -Wno-misleading-indentation -Wno-parentheses $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//') symex.cpp -o bin/symex.tmp.$$ $(llvm-config-18 --ldflags) -lLLVM-18 -lz3 && mv bin/symex.tmp.$$ bin/symex
