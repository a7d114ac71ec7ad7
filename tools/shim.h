// clang does not accept libstdc++'s std::pow in constant expressions (gcc folds it as a builtin); the integer
// overload below has the same value for the uses in include/bdd_node.h.
#pragma once
#include <cmath>
namespace std {
constexpr double pow(int a, unsigned long b) { double r = 1; for(unsigned long i = 0; i < b; ++i) r *= a; return r; }
}
