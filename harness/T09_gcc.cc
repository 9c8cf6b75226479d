// VH-SRC: mbo/types/stringify.cc mbo/log/demangle.cc
// VH-CXX: g++
// VH-SAN: undefined
// VH-OPT: -O0
// VH-CXXFLAGS: -ftemplate-depth=5000 -g0
// VH-RULE: the same monitors built by gcc, whose field names come from the extension points only (seven types, for compile time).
#define T09_MINI
#include "T09.cc"
