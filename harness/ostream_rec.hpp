#pragma once
#include <vector>
struct OutRec { int kind; long i; double d; long flags, prec; };   // kind 0 integer, 1 double, 2 character
extern std::vector<OutRec> symx_out;
