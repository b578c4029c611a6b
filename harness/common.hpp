#ifndef COMMON_HPP
#define COMMON_HPP
#include "sym.h"
#include "rehuel.hpp"
#include <string>
#include <cmath>
// quiet log for the solvers
inline std::ostream &null_log() { return *sym_stream(99); }
#endif
