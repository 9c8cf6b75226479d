// VH-SHARDS: 4
// VH-OPT: -O0
// VH-CXXFLAGS: -g0
// VH-VARIANT: gcc CXX=g++
// VH-RULE: random contents (0 to 30 elements, repeats) converted between every pair of 12 source kinds (vector, deque, list, set, multiset, array, vector of views, string, map, initializer list, limited vector, limited set; passed as lvalue, const lvalue and rvalue) and 8 target kinds, with and without a conversion function (taking by value, const reference or rvalue, counting its calls); results are compared with an element by element construction and a source passed by reference with its earlier content; lifetimes are tracked. A case is one conversion.
#define PART 1
#include "conv.h"
