// Symbolic runs of C07 only: formatted insertion records what is printed and under which stream state, instead of formatting it
// (formatting of a symbolic double cannot be encoded).  Native replays use the real stream.
#include "ostream_rec.hpp"
#include <ios>
#include <ostream>
std::vector<OutRec> symx_out;
static std::ostream& rec(std::ostream& os, int kind, long i, double d)
{
    symx_out.push_back(OutRec{ kind, i, d, (long) os.flags(), (long) os.precision() });
    return os;
}
#define STUB(name, T, expr_kind, I, D) std::ostream& name(std::ostream& os, T v) asm(#name); std::ostream& name(std::ostream& os, T v) { return rec(os, expr_kind, I, D); }
STUB(_ZNSolsEi, int, 0, v, 0.0)
STUB(_ZNSolsEj, unsigned, 0, v, 0.0)
STUB(_ZNSo9_M_insertIlEERSoT_, long, 0, v, 0.0)
STUB(_ZNSo9_M_insertImEERSoT_, unsigned long, 0, (long) v, 0.0)
STUB(_ZNSo9_M_insertIdEERSoT_, double, 1, 0, v)
STUB(_ZNSo3putEc, char, 2, v, 0.0)
std::ostream& oins(std::ostream& os, const char* s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& oins(std::ostream& os, const char* s, long n) { for (long k = 0; k < n; ++k) rec(os, 2, s[k], 0.0); return os; }
std::ostream& oendl(std::ostream& os) asm("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
std::ostream& oendl(std::ostream& os) { return rec(os, 2, '\n', 0.0); }
std::ostream& oflush(std::ostream& os) asm("_ZNSo5flushEv");
std::ostream& oflush(std::ostream& os) { return os; }
