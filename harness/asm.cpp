// multASM.cpp compiles its inline assembly only where __GNUC__ > 4, as g++ does; clang reports __GNUC__ 4.
// The system headers are read first, then the real source is compiled with the value of the build's compiler.
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <x86intrin.h>
#undef __GNUC__
#define __GNUC__ 13
#include "multASM.cpp"
