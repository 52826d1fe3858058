// C07: arbitrary weights, arbitrary initial format flags and precision.
#include "common.hpp"
#include "ostream_rec.hpp"
#include <opm/utility/graph/AssembledConnections.hpp>
#include <cstdio>
#include <map>
#include <sstream>

using namespace Opm;

#ifndef PK
#define PK 2
#endif

extern "C" void c07_state()
{
    using B = std::ios_base;
    const int n = 3;
    AssembledConnections ac;
    std::map<std::pair<int,int>, double> want;
    const int k = pick("k", PK + 1);
    for (int e = 0; e < k; ++e) {
        const int i = symx_concretize(symInt(nm("i", e), 0, n - 1)), j = symx_concretize(symInt(nm("j", e), 0, n));
        const double w = symDbl(nm("w", e)); symx_assume(w >= -1e6 && w <= 1e6);
        ac.addConnection(i, j, w); auto p = want.emplace(std::make_pair(i, j), 0.0).first; p->second += w;
    }
    ac.compress(n);
    std::ostringstream os;
    // Every combination of the 15 format flags.
    const unsigned all = (unsigned) (B::boolalpha | B::dec | B::fixed | B::hex | B::internal | B::left | B::oct | B::right | B::scientific | B::showbase | B::showpoint | B::showpos | B::skipws | B::unitbuf | B::uppercase);
    const unsigned f0 = symx_u32("flags"); symx_assume((f0 & ~all) == 0);
    const int p0 = symInt("prec", 0, 60);
    os.flags((B::fmtflags) f0); os.precision(p0);
#ifdef SYMX_IR
    symx_out.clear();
#endif
    os << ac;
    symx_assert((unsigned) os.flags() == f0, "format flags are as before");
    symx_assert(os.precision() == p0, "precision is as before");
#ifdef SYMX_IR
    std::size_t r = 0;
    auto ch = [&](char c) { symx_assert(r < symx_out.size() && symx_out[r].kind == 2 && symx_out[r].i == c, "each line holds source, neighbour and weight"); ++r; };
    auto in = [&](int v) { symx_assert(r < symx_out.size() && symx_out[r].kind == 0 && symx_out[r].i == v, "lines are in row order and ascending neighbour order"); ++r; };
    for (auto& q : want) {
        in(q.first.first); ch(' '); in(q.first.second); ch(' ');
        symx_assert(r < symx_out.size() && symx_out[r].kind == 1, "each line holds source, neighbour and weight");
        symx_close(symx_out[r].d, q.second, 0, 0, "the weight is printed");
        symx_assert(((unsigned) symx_out[r].flags & (unsigned) B::floatfield) == (unsigned) B::scientific, "the weight is in scientific notation");
        symx_assert(symx_out[r].prec == 16, "the weight has 16 digits of precision");
        ++r; ch('\n');
    }
    symx_assert(r == symx_out.size(), "one line per connection and nothing else");
#else
    if ((f0 & (unsigned) (B::hex | B::oct | B::showbase | B::showpos | B::showpoint | B::uppercase)) == 0) {
        std::string exp;
        for (auto& p : want) { char buf[96]; std::snprintf(buf, sizeof buf, "%d %d %.16e\n", p.first.first, p.first.second, p.second); exp += buf; }
        symx_assert(os.str() == exp, "one line per connection: source, neighbour, weight in scientific notation with 16 digits");
    }
#endif
    os.flags(B::skipws | B::dec); os.precision(6);
    symx_reach("state");
}
ENTRIES(E(c07_state))
