#!/bin/bash
# builds the analysis tools (LLVM/Clang based) from /verif/tools into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
CXXF="-I$(llvm-config-18 --includedir) -std=c++17 -fno-exceptions -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -O1 -w"
LIBD=$(llvm-config-18 --libdir)
build() { # name libs
	if [ ! -x build/$1 ] || [ tools/$1.cpp -nt build/$1 ]; then
		clang++-18 $CXXF tools/$1.cpp -o build/$1.tmp -L$LIBD $2 -Wl,-rpath,$LIBD
		mv build/$1.tmp build/$1
	fi
}
build irdump "-lLLVM-18" &
P1=$!
build astq "-l:libclang-cpp.so.18.1 -lLLVM-18" &
P2=$!
wait $P1
build effects "-lLLVM-18" &
P3=$!
wait $P2
wait $P3
