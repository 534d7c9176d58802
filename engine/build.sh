#!/bin/bash
# builds /verif/build/msym (only when missing or older than its sources)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
H=$(cat *.cpp *.hpp *.inc build.sh | sha256sum | cut -c1-16)
[ -x ../build/msym ] && [ "$(cat ../build/msym.hash 2>/dev/null)" = "$H" ] && exit 0
ZP=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
OPT=${MSYM_OPT:--O2}
clang++-18 -std=c++20 $OPT -fexceptions -frtti -I/usr/lib/llvm-18/include -I$ZP/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS msym.cpp -o ../build/msym.tmp.$$ -rdynamic -L$ZP/lib -lz3 -Wl,-rpath,$ZP/lib -L/usr/lib/llvm-18/lib -lLLVM-18 -lboost_serialization -lboost_program_options -ldl -lpthread
mv ../build/msym.tmp.$$ ../build/msym
echo $H > ../build/msym.hash
