// C05-C11: graph assembly and the value containers.
#include "common.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <climits>
#include <cstdio>
#include <exception>
#include <iomanip>
#include <ios>
#include <map>
#include <set>
#include <sstream>

using namespace Opm;
using namespace Opm::FlowDiagnostics;

#ifndef AK
#define AK 3
#endif
#ifndef AN
#define AN 3
#endif

// ------------------------------------------------------------------ C05
namespace {
struct Conn { int i, j; double w; };

// compare a compressed graph with the connections it was built from
void checkGraph(const AssembledConnections& ac, const std::vector<Conn>& c, std::size_t rows, bool weighted)
{
    symx_assert(ac.numRows() == rows, "one row per requested vertex");
    const auto& ia = ac.startPointers(); const auto& ja = ac.neighbourhood(); const auto& sa = ac.connectionWeight();
    symx_assert(ia.size() == rows + 1 && ia[0] == 0 && ia.back() == ja.size(), "row pointers delimit the neighbour list");
    for (std::size_t r = 0; r < rows; ++r) symx_assert(ia[r] <= ia[r + 1], "row pointers never decrease");
    std::map<int, std::map<int, double>> want;
    for (auto& k : c) { auto p = want[k.i].emplace(k.j, 0.0).first; p->second += k.w; }
    if (weighted && !c.empty()) symx_assert(sa.size() == ja.size(), "one weight per stored connection");
    if (!weighted || c.empty()) symx_assert(sa.empty(), "no weights exist in a graph without weights");
    for (std::size_t r = 0; r < rows; ++r) {
        const auto& w = want[(int) r];
        symx_assert(ia[r + 1] - ia[r] == w.size(), "row holds the distinct neighbours, no more and no fewer");
        std::size_t k = ia[r];
        for (auto& p : w) {
            symx_assert(ja[k] == p.first, "neighbours in strictly ascending order");
            if (weighted) symx_close(sa[k], p.second, 1e-9, 1e-9, "weight is the sum over repeated connections");
            ++k;
        }
        if (weighted && !c.empty()) {
            std::size_t m = ia[r];
            for (const auto& nb : ac.cellNeighbourhood((int) r)) {
                symx_assert(m < ia[r + 1] && nb.neighbour == ja[m], "row iteration gives the neighbours");
                symx_close(nb.weight, sa[m], 0, 0, "row iteration gives the weights");
                ++m;
            }
            symx_assert(m == ia[r + 1], "row iteration covers the row");
        }
    }
    for (std::size_t k = 0; k < ja.size(); ++k) symx_observe_int("ja", ja[k]);
    for (auto s : sa) symx_observe("sa", s);
}

std::vector<Conn> symConns(const char* p, int k, int ni, int nj)
{
    std::vector<Conn> c;
    for (int e = 0; e < k; ++e) {
        Conn q; q.i = symx_concretize(symInt(nm((std::string(p) + "i").c_str(), e), 0, ni - 1)); q.j = symx_concretize(symInt(nm((std::string(p) + "j").c_str(), e), 0, nj - 1));
        q.w = symDbl(nm((std::string(p) + "w").c_str(), e)); symx_assume(q.w >= -1e9 && q.w <= 1e9);
        c.push_back(q);
    }
    return c;
}

// returns 1 ok, 0 rejected
int compressIt(AssembledConnections& ac, std::size_t rows)
{
    try { ac.compress(rows); return 1; } catch (const std::exception&) { return 0; }
}
void addAll(AssembledConnections& ac, const std::vector<Conn>& c, bool weighted)
{
    for (auto& q : c) { if (weighted) ac.addConnection(q.i, q.j, q.w); else ac.addConnection(q.i, q.j); }
}
bool fits(const std::vector<Conn>& c, std::size_t rows) { for (auto& q : c) if ((std::size_t) q.i >= rows) return false; return true; }
}

// arbitrary connections, weights arbitrary reals
extern "C" void c05_graph()
{
    const int k = pick("k", AK + 1), weighted = pick("weighted", 2);
    const std::size_t rows = (std::size_t) pick("rows", AN + 2);
    auto c = symConns("", k, AN, AN + 1);
    AssembledConnections ac;
    addAll(ac, c, weighted);
    const int ok = compressIt(ac, rows);
    symx_assert(ok == (int) fits(c, rows), "rejected exactly when a source vertex lies outside the rows");
    if (ok) checkGraph(ac, c, rows, weighted);
    symx_reach(ok ? "graph accepted" : "graph rejected");
}

// many repeats of few pairs: duplicate accumulation, all orders
extern "C" void c05_repeat()
{
    auto c = symConns("", AK + 3, 2, 2);
    AssembledConnections ac;
    addAll(ac, c, true);
    symx_assert(compressIt(ac, 3), "accepted");
    checkGraph(ac, c, 3, true);
    symx_reach("repeats");
}

// mixing weighted and unweighted connections
extern "C" void c05_mixed()
{
    const int k = 2 + pick("k", 3);
    AssembledConnections ac;
    int nw = 0;
    std::vector<Conn> c;
    for (int e = 0; e < k; ++e) {
        Conn q{ e % 2, symx_concretize(symInt(nm("j", e), 0, 1)), 0.0 };
        if (pick(nm("weighted", e), 2)) { q.w = symDbl(nm("w", e)); symx_assume(q.w >= -1e9 && q.w <= 1e9); ac.addConnection(q.i, q.j, q.w); ++nw; }
        else ac.addConnection(q.i, q.j);
        c.push_back(q);
    }
    const int ok = compressIt(ac, 2);
    symx_assert(ok == (int) (nw == 0 || nw == k), "mixture of weighted and unweighted connections is rejected, others accepted");
    if (ok) checkGraph(ac, c, 2, nw == k);
    symx_reach(ok ? "uniform" : "mixed");
}

// longer rows: n-by-n tables, entries in arbitrary (descending, rotated, interleaved) insertion order, each pair 1 or 2 times
extern "C" void c05_large()
{
    const int n = oneOf<int>("n", { 7, 20 }), order = pick("order", 4);
    const int a = symx_concretize(symInt("a", 0, 4)), b = symx_concretize(symInt("b", 0, 4));
    double x = symDbl("x"), y = symDbl("y"); symx_assume(x >= -1e6 && x <= 1e6 && y >= -1e6 && y <= 1e6);
    std::vector<Conn> c;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((i + j * (a + 1)) % 3 != 2) c.push_back({ i, j, i == b ? x : 1.0 + i + 32.0 * j });
    for (int i = 0; i < n; ++i) if (i % 2 == a % 2) c.push_back({ i, (i * 3 + b) % n, y });
    if (order == 1) { std::vector<Conn> r(c.rbegin(), c.rend()); c = r; }
    if (order == 2) { std::vector<Conn> r; for (std::size_t k = 0; k < c.size(); ++k) r.push_back(c[(k + c.size() / 3) % c.size()]); c = r; }
    if (order == 3) { std::vector<Conn> r; for (std::size_t s = 0; s < 5; ++s) for (std::size_t k = s; k < c.size(); k += 5) r.push_back(c[k]); c = r; }
    AssembledConnections ac;
    addAll(ac, c, true);
    symx_assert(compressIt(ac, n + 2), "accepted");
    checkGraph(ac, c, n + 2, true);
    symx_reach("large");
}

// vertex numbers beyond 8 and 16 bits
extern "C" void c05_wide()
{
    const int t[] = { 65536, 0, 70000, 256 };
    std::vector<Conn> c; const int weighted = pick("weighted", 2), low = pick("low", 2);
    for (int e = 0; e < 3; ++e) {
        Conn q; q.i = e == 2 ? (low ? 1 : 4464) : t[pick(nm("i", e), 3)]; q.j = t[pick(nm("j", e), e == 0 ? 4 : 2)] + (e == 1);
        q.w = symDbl(nm("w", e)); symx_assume(q.w >= -1e9 && q.w <= 1e9); c.push_back(q);
    }
    AssembledConnections ac; addAll(ac, c, weighted);
    const std::size_t rows = oneOf<int>("rows", { 66000, 70001, 300 });
    const int ok = compressIt(ac, rows);
    symx_assert(ok == (int) fits(c, rows), "rejected exactly when a source vertex lies outside the rows");
    if (ok) {
        const auto& ia = ac.startPointers(); const auto& ja = ac.neighbourhood(); const auto& sa = ac.connectionWeight();
        std::map<int, std::map<int, double>> want; for (auto& k : c) want[k.i].emplace(k.j, 0.0).first->second += k.w;
        symx_assert(ac.numRows() == rows && ia.size() == rows + 1 && ia[0] == 0 && ia.back() == ja.size() && sa.size() == (weighted ? ja.size() : 0), "sizes");
        std::size_t k = 0, r = 0; bool start = true;
        for (auto& w : want) {
            for (; r <= (std::size_t) w.first; ++r) start = start && ia[r] == k;
            for (auto& p : w.second) { symx_assert(k < ja.size() && ja[k] == p.first, "neighbours in strictly ascending order"); if (weighted) symx_close(sa[k], p.second, 1e-9, 1e-9, "weight is the sum over repeated connections"); ++k; }
        }
        for (; r <= rows; ++r) start = start && ia[r] == k;
        symx_assert(start, "row holds the distinct neighbours, no more and no fewer");
    }
    symx_reach(ok ? "wide accepted" : "wide rejected");
}
// thousands of connections, repeated or not
extern "C" void c05_long()
{
    const int n = oneOf<int>("n", { 90, 1500 }), step = oneOf<int>("step", { 1, 7, 113 }), reps = 1 + pick("reps", 2), weighted = pick("weighted", 2);
    const double x = symDbl("x"); symx_assume(x >= -1e6 && x <= 1e6);
    std::vector<Conn> c;
    for (int k = 0; k < reps * n; ++k) { const int q = (int) ((long) k * step % n); c.push_back({ q % 30, (q * 11) % 97, k == n / 2 ? x : 0.25 * (k % 9) - 1.0 }); }
    AssembledConnections ac; addAll(ac, c, weighted);
    symx_assert(compressIt(ac, 31), "accepted");
    checkGraph(ac, c, 31, weighted);
    symx_reach("long");
}
// weights of very small and very large magnitude
extern "C" void c05_tiny()
{
    const double s = oneOf<double>("scale", { 1e-18, 1e-9, 1e9 });
    auto c = std::vector<Conn>(4);
    for (int e = 0; e < 4; ++e) { c[e].i = pick(nm("i", e), 2); c[e].j = pick(nm("j", e), 2); c[e].w = symDbl(nm("w", e)); symx_assume(c[e].w >= 0.0 && c[e].w <= s); }
    AssembledConnections ac; addAll(ac, c, true);
    symx_assert(compressIt(ac, 2), "accepted");
    std::map<std::pair<int, int>, double> want; for (auto& q : c) want.emplace(std::make_pair(q.i, q.j), 0.0).first->second += q.w;
    const auto& ia = ac.startPointers(); const auto& ja = ac.neighbourhood(); const auto& sa = ac.connectionWeight();
    symx_assert(ja.size() == want.size() && sa.size() == want.size() && ia.size() == 3 && ia[2] == ja.size(), "row holds the distinct neighbours, no more and no fewer");
    std::size_t k = 0;
    for (auto& p : want) { symx_assert(ja[k] == p.first.second && ia[p.first.first] <= k && k < ia[p.first.first + 1], "neighbours in strictly ascending order"); symx_close(sa[k], p.second, 1e-9, 0, "weight is the sum over repeated connections"); ++k; }
    symx_reach("tiny");
}

// ------------------------------------------------------------------ C06
// A history of graphs assembled in one object; each is compared with its own connections.
namespace {
void c06History(int phases, int kmax, int ni, int nj)
{
    AssembledConnections ac;
    for (int p = 0; p < phases; ++p) {
        const std::string pre = "p" + std::to_string(p);
        const int k = pick(pre + "k", kmax + 1), weighted = pick(pre + "weighted", 2);
        auto c = symConns(pre.c_str(), k, ni, nj);
        int need = 0; for (auto& q : c) if (q.i + 1 > need) need = q.i + 1;
        const std::size_t rows = (std::size_t) (p + 1 < phases ? need : pick("rows", ni + 2));
        addAll(ac, c, weighted);
        const int ok = compressIt(ac, rows);
        symx_assert(ok == (int) fits(c, rows), "the same row counts are accepted as in a new object");
        if (!ok) { symx_reach("rejected"); return; }
        checkGraph(ac, c, rows, weighted);
    }
    symx_reach("history");
}
}
#if DEEP
extern "C" void c06_two() { c06History(2, 2, 3, 3); }
#else
extern "C" void c06_two() { c06History(2, 2, 2, 3); }
#endif
extern "C" void c06_three() { c06History(3, 1, 3, 3); }
// from large to small and back
extern "C" void c06_shrink()
{
    AssembledConnections ac;
    const int rounds = 4;
    for (int p = 0; p < rounds; ++p) {
        const std::string pre = "p" + std::to_string(p);
        const int n = (pick(pre + "big", 2) ? 12 : 2), weighted = pick(pre + "weighted", 2);
        double w = symDbl(pre + "w"); symx_assume(w >= -1e6 && w <= 1e6);
        std::vector<Conn> c;
        for (int i = 0; i < n; ++i) { c.push_back({ i, (i * 5 + 1) % (n + 1), w }); c.push_back({ i, i / 2, 2.0 }); c.push_back({ i, (i * 5 + 1) % (n + 1), 1.0 }); }
        addAll(ac, c, weighted);
        symx_assert(compressIt(ac, n) == 1, "the same row counts are accepted as in a new object");
        checkGraph(ac, c, n, weighted);
    }
    symx_reach("shrink");
}

// ------------------------------------------------------------------ C07
namespace {
const double wtab[] = { 1.0, 1.0 / 3.0, -2.5e-7, 123456789.123456789, 0.0, 3.5e210, 1e-300, 10.0 };
std::ios_base::fmtflags flagsOf(int k)
{
    using B = std::ios_base;
    switch (k) {
    case 0: return B::skipws | B::dec;
    case 1: return B::skipws | B::dec | B::fixed;
    case 2: return B::skipws | B::dec | B::scientific;
    case 3: return B::dec | B::left | B::unitbuf;
    case 4: return B::skipws | B::hex | B::showbase;
    case 5: return B::skipws | B::dec | B::fixed | B::scientific;
    case 6: return B::skipws | B::dec | B::showpos | B::uppercase | B::boolalpha | B::internal;
    default: return B::fmtflags();
    }
}
}
extern "C" void c07_print()
{
    #if DEEP
    const int n = 3, kmax = 3;
#else
    const int n = 3, kmax = 2;
#endif
    AssembledConnections ac;
    std::map<std::pair<int,int>, double> want;
    const int k = pick("k", kmax + 1);
    for (int e = 0; e < k; ++e) {
        const int i = symx_concretize(symInt(nm("i", e), 0, n - 1)), j = symx_concretize(symInt(nm("j", e), 0, n));
        const double w = wtab[(e * 3 + pick("w", 8)) % 8];
        ac.addConnection(i, j, w); auto p = want.emplace(std::make_pair(i, j), 0.0).first; p->second += w;
    }
    ac.compress(n);
    std::ostringstream os;
    const int fk = pick("flags", 3), pk = pick("prec", 2);
    os.flags(flagsOf(fk)); os.precision(pk ? 3 : 6);
    os << ac;
    std::string exp;
    for (auto& p : want) { char buf[96]; std::snprintf(buf, sizeof buf, "%d %d %.16e\n", p.first.first, p.first.second, p.second); exp += buf; }
    symx_assert(os.str() == exp, "one line per connection: source, neighbour, weight in scientific notation with 16 digits");
    symx_assert(os.flags() == flagsOf(fk), "format flags are as before");
    symx_assert(os.precision() == (pk ? 3 : 6), "precision is as before");
    symx_reach("print");
}
extern "C" void c07_flags()
{
    AssembledConnections ac;
    const int k = pick("k", 3);
    for (int e = 0; e < k; ++e) ac.addConnection(e, 1 - e + 1, 0.5 + e);
    ac.compress(3);
    std::ostringstream os;
    const int fk = pick("flags", 8), prec = oneOf<int>("prec", { 0, 1, 6, 16, 17, 40 });
    os.flags(flagsOf(fk)); os.precision(prec);
    for (int rep = 0; rep < 2; ++rep) {
        os << ac;
        symx_assert(os.flags() == flagsOf(fk), "format flags are as before");
        symx_assert(os.precision() == prec, "precision is as before");
        symx_assert(os.good(), "stream stays good");
    }
    int lines = 0; for (char ch : os.str()) lines += ch == '\n';
    symx_assert(lines == 2 * k, "one line per connection");
    symx_reach("flags");
}
extern "C" void c07_many()
{
    // every row length 0..4 in every position of a larger graph
    const int n = 12, a = symx_concretize(symInt("a", 0, 4)), b = symx_concretize(symInt("b", 0, 4));
    AssembledConnections ac; std::string exp;
    for (int i = 0; i < n; ++i) {
        const int d = (a * i + b) % 5;
        for (int j = 0; j < d; ++j) {
            const double w = (i + 1) / 7.0 - j; ac.addConnection(i, 3 * j + i % 2, w);
            char buf[96]; std::snprintf(buf, sizeof buf, "%d %d %.16e\n", i, 3 * j + i % 2, w); exp += buf;
        }
    }
    ac.compress(n + pick("extra", 2));
    std::ostringstream os;
    os << ac;
    symx_assert(os.str() == exp, "one line per connection: source, neighbour, weight in scientific notation with 16 digits");
    symx_reach("many");
}

// vertex numbers of up to five digits, weights of all magnitudes
extern "C" void c07_wide()
{
    const int t[] = { 9, 10, 999, 65536, 70000 };
    const int i = t[pick("i", 5)], j = t[pick("j", 5)];
    const double w = oneOf<double>("w", { 1e-300, -1e-18, 0.1, 123456789.0, -1e300 });
    AssembledConnections ac; ac.addConnection(i, j, w); ac.addConnection(3, 100001, 0.5); ac.compress(70001);
    char buf[96]; std::snprintf(buf, sizeof buf, "%d %d %.16e\n", i, j, w);
    std::string exp = "3 100001 5.0000000000000000e-01\n"; exp += buf;
    std::ostringstream os; os << std::fixed << std::setprecision(3) << ac << 0.5;
    symx_assert(os.str() == exp + "0.500", "one line per connection: source, neighbour, weight in scientific notation with 16 digits");
    symx_reach("wide");
}

// ------------------------------------------------------------------ C08
namespace {
void c08Case(int n, int m, int lo, int hi)
{
    std::vector<int> t(m);
    for (int k = 0; k < m; ++k) t[k] = symInt(nm("t", k), lo, hi);
    bool good = m % 2 == 0;
    for (int k = 0; k < m; ++k) if (!(t[k] >= 0 && t[k] < n)) { good = false; break; }
    const std::vector<int> copy = t;
    bool ok = false;
    try {
        ConnectivityGraph g(n, t);
        ok = true;
        symx_assert(good, "odd tables and cell indices out of range are rejected");
        symx_assert(g.numCells() == (std::size_t) n, "number of cells is reported");
        symx_assert(g.numConnections() == (std::size_t) m / 2, "number of connections is half the number of entries");
        for (int k = 0; k < m / 2; ++k) {
            auto c = g.connection(k);
            symx_assert(c.first == copy[2 * k], "first cell of each connection in order");
            symx_assert(c.second == copy[2 * k + 1], "second cell of each connection in order");
        }
        // copies and temporaries report the same
        ConnectivityGraph h(g);
        symx_assert(h.numCells() == g.numCells() && h.numConnections() == g.numConnections(), "a copy reports the same sizes");
        for (int k = 0; k < m / 2; ++k) { auto c = h.connection(k); symx_assert(c.first == copy[2 * k] && c.second == copy[2 * k + 1], "a copy reports the same connections"); }
    } catch (const std::exception&) {
        symx_assert(!good, "a valid table is accepted");
    }
    symx_reach(ok ? "accepted" : "rejected");
}
}
#ifndef C08M
#define C08M 6
#endif
extern "C" void c08_table() { const int n = pick("n", 5), m = pick("m", C08M + 1); c08Case(n, m, INT_MIN, INT_MAX); }
extern "C" void c08_bigcount() { const int n = oneOf<int>("n", { 1000, 1000000, INT_MAX }), m = 1 + pick("m", 4); c08Case(n, m, INT_MIN, INT_MAX); }
extern "C" void c08_one()
{
    // one arbitrary entry anywhere in a long table
    const int n = 50, m = oneOf<int>("m", { 20, 21, 38 });
    const int at = symx_concretize(symInt("at", 0, m - 1));
    std::vector<int> t(m);
    for (int k = 0; k < m; ++k) t[k] = (k * 7 + 3) % n;
    t[at] = m == 600 ? symInt("v", INT_MIN, INT_MAX) : oneOf<int>("value", { INT_MIN, -65536, -1, 0, n - 1, n, 1 << 24, INT_MAX });
    const std::vector<int> copy = t;
    const bool good = m % 2 == 0 && t[at] >= 0 && t[at] < n;
    try {
        ConnectivityGraph g(n, t);
        symx_assert(good, "odd tables and cell indices out of range are rejected");
        symx_assert(g.numCells() == (std::size_t) n && g.numConnections() == (std::size_t) m / 2, "sizes are reported");
        for (int k = 0; k < m / 2; ++k) { auto c = g.connection(k); symx_assert(c.first == copy[2 * k] && c.second == copy[2 * k + 1], "connections are reported in order"); }
        symx_reach("accepted");
    } catch (const std::exception&) {
        symx_assert(!good, "a valid table is accepted");
        symx_reach("rejected");
    }
}

extern "C" void c08_wide()
{
    // long tables, one arbitrary entry at a few places
    const int n = oneOf<int>("n", { 40000, 100000 }), m = oneOf<int>("m", { 600, 140000 }), at = m == 600 ? oneOf<int>("at", { 0, 255, 256, 599 }) : oneOf<int>("at", { 0, 1, 65535, 70001, 139999 });
    std::vector<int> t(m);
    for (int k = 0; k < m; ++k) t[k] = (int) ((k * 7919L + 3) % n);
    t[at] = m == 600 ? symInt("v", INT_MIN, INT_MAX) : oneOf<int>("value", { INT_MIN, -65536, -1, 0, n - 1, n, 1 << 24, INT_MAX });
    const std::vector<int> copy = t;
    const bool good = t[at] >= 0 && t[at] < n;
    try {
        ConnectivityGraph g(n, t);
        symx_assert(good, "odd tables and cell indices out of range are rejected");
        symx_assert(g.numCells() == (std::size_t) n && g.numConnections() == (std::size_t) m / 2, "sizes are reported");
        bool ok = true; for (int k = 0; k < m / 2; ++k) if (k != at / 2) { auto c = g.connection(k); ok = ok && c.first == copy[2 * k] && c.second == copy[2 * k + 1]; }
        symx_assert(ok, "connections are reported in order");
        auto c = g.connection(at / 2); symx_assert(c.first == copy[at - at % 2] && c.second == copy[at - at % 2 + 1], "connections are reported in order");
        symx_reach("accepted");
    } catch (const std::exception&) {
        symx_assert(!good, "a valid table is accepted");
        symx_reach("rejected");
    }
}

// ------------------------------------------------------------------ C09
#ifndef C09W
#define C09W 2
#endif
extern "C" void c09_values()
{
    const int nc = pick("nc", 4), np = pick("np", 4);
    ConnectionValues cv(ConnectionValues::NumConnections{ (std::size_t) nc }, ConnectionValues::NumPhases{ (std::size_t) np });
    symx_assert(cv.numConnections() == (std::size_t) nc && cv.numPhases() == (std::size_t) np, "sizes are reported");
    std::vector<std::vector<double>> shadow(nc, std::vector<double>(np, 0.0));
    const ConnectionValues& ccv = cv;
    auto readAll = [&](const char* what) {
        for (int c = 0; c < nc; ++c) for (int p = 0; p < np; ++p) {
            const double v = ccv(ConnectionValues::ConnID{ (std::size_t) c }, ConnectionValues::PhaseID{ (std::size_t) p });
            const double u = cv(ConnectionValues::ConnID{ (std::size_t) c }, ConnectionValues::PhaseID{ (std::size_t) p });
            symx_close(v, shadow[c][p], 0, 0, what);
            symx_close(u, shadow[c][p], 0, 0, what);
        }
    };
    readAll("initially all zero");
    for (int k = 0; k < C09W; ++k) {
        const unsigned long c = symx_u64(nm("c", k).c_str()), p = symx_u64(nm("p", k).c_str());
        const double v = symDbl(nm("v", k)); symx_assume(v >= -1e12 && v <= 1e12);
        const bool in = c < (unsigned long) nc && p < (unsigned long) np;
        bool threw = false, cthrew = false;
        try { (void) ccv(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }); } catch (const std::exception&) { cthrew = true; }
        try { cv(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) = v; } catch (const std::exception&) { threw = true; }
        symx_assert(threw == !in, "writing throws exactly when an index is out of range");
        symx_assert(cthrew == !in, "reading throws exactly when an index is out of range");
        if (in) shadow[symx_concretize((int) c)][symx_concretize((int) p)] = v;
        readAll("each entry has the value last written to it");
    }
    ConnectionValues copy(cv);
    if (nc && np) cv(ConnectionValues::ConnID{ 0 }, ConnectionValues::PhaseID{ 0 }) = 42.0;
    for (int c = 0; c < nc; ++c) for (int p = 0; p < np; ++p) symx_close(copy(ConnectionValues::ConnID{ (std::size_t) c }, ConnectionValues::PhaseID{ (std::size_t) p }), shadow[c][p], 0, 0, "a copy keeps the values");
    symx_reach("values");
}
// larger, non-square shapes: every entry holds a distinct value
extern "C" void c09_shapes()
{
#if DEEP
    const std::size_t nc = oneOf<int>("nc", { 1, 2, 7, 30 }), np = oneOf<int>("np", { 1, 2, 3, 5 });
#else
    const std::size_t nc = oneOf<int>("nc", { 1, 6 }), np = oneOf<int>("np", { 1, 2, 3 });
#endif
    ConnectionValues cv(ConnectionValues::NumConnections{ nc }, ConnectionValues::NumPhases{ np });
    for (std::size_t c = 0; c < nc; ++c) for (std::size_t p = 0; p < np; ++p) cv(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) = 1.0 + c * 100.0 + p;
    const unsigned long c = symx_u64("c"), p = symx_u64("p");
    const bool in = c < nc && p < np;
    bool threw = false; double v = 0;
    try { v = const_cast<const ConnectionValues&>(cv)(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }); } catch (const std::exception&) { threw = true; }
    symx_assert(threw == !in, "access throws exactly when an index is out of range");
    if (in) symx_assert(v == 1.0 + symx_concretize((int) c) * 100.0 + symx_concretize((int) p), "each entry has the value last written to it");
    for (std::size_t a = 0; a < nc; ++a) for (std::size_t b = 0; b < np; ++b) symx_assert(cv(ConnectionValues::ConnID{ a }, ConnectionValues::PhaseID{ b }) == 1.0 + a * 100.0 + b, "no other entry is affected");
    symx_reach(in ? "in range" : "out of range");
}

extern "C" void c09_wide()
{
    const std::size_t nc = oneOf<int>("nc", { 3, 70000 }), np = nc == 3 ? 300 : 3;
    ConnectionValues cv(ConnectionValues::NumConnections{ nc }, ConnectionValues::NumPhases{ np });
    symx_assert(cv.numConnections() == nc && cv.numPhases() == np, "sizes are reported");
    bool zero = true;
    for (std::size_t c = 0; c < nc; ++c) for (std::size_t p = 0; p < np; ++p) zero = zero && const_cast<const ConnectionValues&>(cv)(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) == 0.0;
    symx_assert(zero, "all entries are initially zero");
    for (std::size_t c = 0; c < nc; ++c) for (std::size_t p = 0; p < np; ++p) cv(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) = 1.0 + c * 1000.0 + p;
    const std::size_t a = nc == 3 ? pick("c", 3) : oneOf<int>("c3", { 0, 32768, 65535, 65536, 69999 }), b = nc == 3 ? oneOf<int>("p3", { 0, 127, 128, 255, 256, 299 }) : pick("p", 3);
    const double x = symDbl("x"); symx_assume(x >= -1e9 && x <= 1e9);
    cv(ConnectionValues::ConnID{ a }, ConnectionValues::PhaseID{ b }) = x;
    const ConnectionValues copy(cv);
    bool ok = true;
    for (std::size_t c = 0; c < nc; ++c) for (std::size_t p = 0; p < np; ++p) if (c != a || p != b) ok = ok && copy(ConnectionValues::ConnID{ c }, ConnectionValues::PhaseID{ p }) == 1.0 + c * 1000.0 + p;
    symx_assert(ok, "no other entry is affected");
    symx_assert(copy(ConnectionValues::ConnID{ a }, ConnectionValues::PhaseID{ b }) == x, "each entry has the value last written to it");
    symx_reach("wide");
}

// ------------------------------------------------------------------ C10
namespace {
std::string symStr(const char* p, int len)
{
    std::string s;
    for (int k = 0; k < len; ++k) s.push_back((char) symInt(nm(p, k), 0, 255));
    return s;
}
bool strLess(const std::string& a, const std::string& b)
{
    for (std::size_t k = 0; k < a.size() && k < b.size(); ++k) { const unsigned char x = a[k], y = b[k]; if (x != y) return x < y; }
    return a.size() < b.size();
}
bool strSame(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); ++k) if (a[k] != b[k]) return false;
    return true;
}
}
#ifndef C10V
#define C10V 15
#endif
#ifndef C10K
#define C10K 3
#endif
extern "C" void c10_set()
{
    const int k0 = pick("k0", C10K), k = pick("k", C10K + 1 - k0);
    std::vector<int> init; for (int i = 0; i < k0; ++i) init.push_back(symInt(nm("a", i), 0, C10V));
    const CellSetID id("well");
    const int viaCtor = pick("viaCtor", 2);
    CellSet cs = viaCtor ? CellSet(id, init) : CellSet(id);
    std::vector<int> all;
    if (viaCtor) all = init;
    for (int i = 0; i < k; ++i) { int v = symInt(nm("b", i), 0, C10V); cs.insert(v); all.push_back(v); }
    std::vector<int> got(cs.begin(), cs.end());
    for (std::size_t i = 0; i < got.size(); ++i) {
        bool in = false; for (int v : all) if (v == got[i]) { in = true; break; }
        symx_assert(in, "only inserted cells are in the set");
        for (std::size_t j = 0; j < i; ++j) symx_assert(got[i] != got[j], "each cell occurs once");
    }
    for (int v : all) { bool in = false; for (int g : got) if (v == g) { in = true; break; } symx_assert(in, "every inserted cell is in the set"); }
    symx_assert(cs.id().to_string() == "well", "the identifier is kept");
    CellSet other(cs); other.insert(7);
    symx_assert((std::size_t) std::distance(cs.begin(), cs.end()) == got.size(), "a copy is independent");
    symx_reach("set");
}
extern "C" void c10_many()
{
    const int n = oneOf<int>("n", { 12, 13, 40 }), step = oneOf<int>("step", { 1, 13 }), x = symInt("x", 0, 200), first = pick("xfirst", 2);
    CellSet cs{ CellSetID("a long identifier that does not fit in the small buffer") };
    if (first) cs.insert(x);
    for (int i = 0; i < n; ++i) { cs.insert(i * step); if (i % 3 == 0) cs.insert(i * step / 2 * 1); }
    if (!first) cs.insert(x);
    std::set<int> want; for (int i = 0; i < n; ++i) { want.insert(i * step); if (i % 3 == 0) want.insert(i * step / 2); }
    bool known = false; for (int w : want) if (w == x) { known = true; break; }
    std::size_t cnt = 0; bool seen = false;
    std::set<int> hit;
    for (int c : cs) { ++cnt; if (c == x && !seen) { seen = true; if (known) hit.insert(symx_concretize(c)); } else hit.insert(symx_concretize(c)); }
    symx_assert(cnt == want.size() + (known ? 0 : 1), "each inserted cell occurs once");
    symx_assert(seen, "the arbitrary cell is in the set");
    symx_assert(hit == want, "exactly the inserted cells are in the set");
    symx_assert(cs.id().to_string() == "a long identifier that does not fit in the small buffer", "the identifier is kept");
    symx_reach("many");
}
// cell numbers of any size
extern "C" void c10_wide()
{
    const int t[] = { 0, 1, 255, 256, 65535, 65536, 65537, 16777217, INT_MAX - 1, INT_MAX };
    const int k = 1 + pick("k", 3); std::vector<int> in; for (int i = 0; i < k; ++i) in.push_back(t[pick(nm("c", i), 10)]);
    const int split = pick("split", k + 1);
    CellSet cs(CellSetID("w"), std::vector<int>(in.begin(), in.begin() + split));
    for (int i = split; i < k; ++i) cs.insert(in[i]);
    const std::multiset<int> got(cs.begin(), cs.end()); const std::set<int> want(in.begin(), in.end());
    symx_assert(got == std::multiset<int>(want.begin(), want.end()), "exactly the inserted cells, each once");
    symx_reach("wide");
}
extern "C" void c10_lots()
{
    const int n = oneOf<int>("n", { 500, 70000 }), step = oneOf<int>("step", { 1, 3, 7919 }), ctor = pick("constructor", 2);
    std::vector<int> in; for (int i = 0; i < n; ++i) in.push_back((int) ((long) i * step % n)); in.push_back(0); in.push_back(in[n / 2]);
    CellSet cs = ctor ? CellSet(CellSetID("w"), in) : CellSet(CellSetID("w"));
    if (!ctor) for (int c : in) cs.insert(c);
    std::vector<char> seen(n, 0); int cnt = 0; bool ok = true;
    for (int c : cs) { ++cnt; if (c < 0 || c >= n || seen[c]) { ok = false; break; } seen[c] = 1; }
    int distinct = 0; std::vector<char> w(n, 0); for (int c : in) if (!w[c]) { w[c] = 1; ++distinct; }
    symx_assert(ok && cnt == distinct && seen == w, "exactly the inserted cells, each once");
    symx_reach("lots");
}
extern "C" void c10_id()
{
    const std::string a = symStr("a", pick("la", 3)), b = symStr("b", pick("lb", 3)), c = symStr("c", pick("lc", 3));
    const CellSetID x(a), y(b), z(c);
    symx_assert(strSame(x.to_string(), a), "the text is reported back");
    const bool xy = x < y, yx = y < x;
    symx_assert(xy == strLess(a, b), "ordering is the order of the text");
    symx_assert(yx == strLess(b, a), "ordering is the order of the text");
    symx_assert((!xy && !yx) == strSame(a, b), "equivalent exactly when the texts are equal");
    if (xy && y < z) symx_assert(x < z, "ordering is transitive");
    symx_assert(CellSetID().to_string().empty(), "the default identifier is the empty text");
    symx_reach("id");
}
extern "C" void c10_longid()
{
    // one arbitrary character at an arbitrary place of a long identifier; lengths may differ by one
    const int len = oneOf<int>("len", { 14, 15, 16, 17, 40 });
    const int at = symx_concretize(symInt("at", 0, len - 1));
    std::string a, b;
    for (int i = 0; i < len; ++i) { a.push_back('A' + i % 26); b.push_back('A' + i % 26); }
    a[at] = (char) symInt("ca", 0, 255); b[at] = (char) symInt("cb", 0, 255);
    if (pick("longer", 2)) b.push_back('x');
    const CellSetID x(a), y(b); const CellSetID xc(x);
    symx_assert(strSame(x.to_string(), a) && strSame(y.to_string(), b) && strSame(xc.to_string(), a), "the text is reported back");
    symx_assert((x < y) == strLess(a, b) && (y < x) == strLess(b, a), "ordering is the order of the text");
    symx_assert(!(x < xc) && !(xc < x), "a copy is an equivalent key");
    CellSet cs(x, { 1, 2 });
    symx_assert(strSame(cs.id().to_string(), a), "the identifier is kept");
    symx_reach("longid");
}

// ------------------------------------------------------------------ C11
namespace {
struct Shadow {
    std::vector<double> glob; std::map<std::string, std::map<int,double>> tof, conc;
};
void sameMap(const std::map<int,double>& a, const std::map<int,double>& b, const char* what)
{
    symx_assert(a.size() == b.size(), what);
    auto q = b.begin();
    for (auto& p : a) { symx_assert(p.first == q->first, what); symx_close(p.second, q->second, 0, 0, what); ++q; }
}
std::string ids[3];
void nameTracers()
{
    if (pick("names", 2)) { ids[0] = ""; ids[1] = "I-2"; ids[2] = "i-2"; }
    else { ids[0] = "a rather long identifier of a tracer I"; ids[1] = std::string("I\0b", 3); ids[2] = "a rather long identifier of a tracer II"; }
}
void sameSol(const Solution& s, const Shadow& h, const char* what)
{
    const auto& g = s.timeOfFlight();
    symx_assert(g.size() == h.glob.size(), what);
    for (std::size_t i = 0; i < g.size(); ++i) symx_close(g[i], h.glob[i], 0, 0, what);
    for (auto& id : ids) {
        auto t = h.tof.find(id), c = h.conc.find(id);
        const std::map<int,double> none;
        sameMap(s.timeOfFlight(CellSetID(id)), t == h.tof.end() ? none : t->second, what);
        sameMap(s.concentration(CellSetID(id)), c == h.conc.end() ? none : c->second, what);
    }
    std::multiset<std::string> sp; for (auto& id : s.startPoints()) sp.insert(id.to_string());
    symx_assert(sp.size() == h.conc.size(), "start points are the identifiers with a concentration, once each");
    for (auto& c : h.conc) symx_assert(sp.count(c.first) == 1, "start points are the identifiers with a concentration, once each");
    symx_assert(s.timeOfFlight(CellSetID("unknown")).empty() && s.concentration(CellSetID("unknown")).empty(), "unknown identifiers have empty fields");
}
void op(Solution& s, Shadow& h, const std::string& n)
{
    const int kind = pick(n + "kind", 3);
    double v = symDbl(n + "v"); symx_assume(v >= -1e12 && v <= 1e12);
    const int sz = pick(n + "size", 3);
    if (kind == 0) { std::vector<double> g; for (int i = 0; i < sz; ++i) g.push_back(i ? 2.0 * i : v); h.glob = g; s.assignGlobalToF(std::move(g)); return; }
    const std::string id = ids[pick(n + "id", 3)];
    std::map<int,double> m; for (int i = 0; i < sz; ++i) m[i ? 5 : 3] = i ? 0.5 : v;
    if (kind == 1) { h.tof[id] = m; s.assign(CellSetID(id), Solution::TimeOfFlight{ m }); }
    else { h.conc[id] = m; s.assign(CellSetID(id), Solution::TracerConcentration{ m }); }
}
}
#ifndef C11K
#define C11K 3
#endif
extern "C" void c11_history()
{
    nameTracers();
    Solution s; Shadow h;
    const int k = 1 + pick("k", C11K);
    for (int i = 0; i < k; ++i) op(s, h, "o" + std::to_string(i));
    sameSol(s, h, "the last assigned values are reported");
    symx_reach("history");
}
extern "C" void c11_copy()
{
    nameTracers();
    Solution s; Shadow h;
    op(s, h, "o0");
    // something in every field, so that sharing would show
    s.assign(CellSetID(ids[0]), Solution::TracerConcentration{ { { 1, 0.25 } } }); h.conc[ids[0]] = { { 1, 0.25 } };
    s.assign(CellSetID(ids[0]), Solution::TimeOfFlight{ { { 1, 3.25 } } }); h.tof[ids[0]] = { { 1, 3.25 } };
    s.assignGlobalToF({ 1.0, 2.0 }); h.glob = { 1.0, 2.0 };
    Solution c(s); Shadow hc = h;
    sameSol(c, hc, "a copy reports the same values");
    if (pick("which", 2)) op(s, h, "o1"); else op(c, hc, "o1");
    sameSol(s, h, "the original is independent of its copy");
    sameSol(c, hc, "a copy is independent of the original");
    Solution m(std::move(s));
    sameSol(m, h, "moving transfers the contents");
    sameSol(c, hc, "moving the original leaves a copy alone");
    op(m, h, "o3");
    sameSol(m, h, "a moved-to solution accepts assignments");
    symx_reach("copy");
}
// many identifiers and long fields
extern "C" void c11_many()
{
    const int n = oneOf<int>("ids", { 12, 150 }), m = oneOf<int>("cells", { 5, 400 }), at = oneOf<int>("at", { 0, 7, 11 });
    const double x = symDbl("x"); symx_assume(x >= -1e12 && x <= 1e12);
    Solution s;
    auto val = [&](int w, int i, int kind) { return w == at && i == m / 2 && kind == 0 ? x : 1e-15 * (i + 1) + w * 2.0 + kind; };
    auto name = [](int w) { return CellSetID((w % 2 ? "PROD-with-a-long-name-" : "I") + std::to_string(w * 37 % 151)); };
    for (int w = 0; w < n; ++w) {
        std::map<int, double> c, t; for (int i = 0; i < m; ++i) { c[i * 171] = val(w, i, 0); if (i % 2) t[i * 171] = val(w, i, 1); }
        if (w % 3) { s.assign(name(w), Solution::TimeOfFlight{ t }); s.assign(name(w), Solution::TracerConcentration{ c }); } else { s.assign(name(w), Solution::TracerConcentration{ c }); s.assign(name(w), Solution::TimeOfFlight{ t }); }
    }
    std::vector<double> g; for (int i = 0; i < m; ++i) g.push_back(i * 0.5); s.assignGlobalToF(std::vector<double>(g));
    const Solution d(s);
    for (int w = 0; w < n; ++w) {
        const auto c = d.concentration(name(w)), t = d.timeOfFlight(name(w));
        bool ok = (int) c.size() == m && (int) t.size() == m / 2; int i = 0;
        for (auto& p : c) { if (w == at && i == m / 2) symx_close(p.second, x, 0, 0, "the last assigned values are reported"); else ok = ok && p.first == i * 171 && p.second == val(w, i, 0); ++i; }
        i = 1; for (auto& p : t) { ok = ok && p.first == i * 171 && p.second == val(w, i, 1); i += 2; }
        symx_assert(ok, "the last assigned values are reported");
    }
    std::set<std::string> sp; for (auto& id : d.startPoints()) sp.insert(id.to_string());
    symx_assert((int) sp.size() == n && (int) d.startPoints().size() == n, "start points are the identifiers with a concentration, once each");
    for (int w = 0; w < n; ++w) symx_assert(sp.count(name(w).to_string()) == 1, "start points are the identifiers with a concentration, once each");
    symx_assert(d.timeOfFlight() == g, "the global field is reported");
    symx_reach("many");
}
extern "C" void c11_query()
{
    // querying never changes anything, and answers are independent of the solution
    nameTracers();
    Solution s; Shadow h;
    op(s, h, "o0");
    auto t = s.timeOfFlight(CellSetID(ids[1])); t[77] = 1.0;
    auto c = s.concentration(CellSetID(ids[1])); c[77] = 1.0;
    sameSol(s, h, "queries change nothing");
    sameSol(s, h, "queries change nothing");
    symx_reach("query");
}

ENTRIES(E(c05_graph), E(c05_repeat), E(c05_mixed), E(c05_large), E(c05_wide), E(c05_long), E(c05_tiny), E(c07_wide), E(c08_wide), E(c09_wide), E(c10_wide), E(c10_lots), E(c11_many), E(c06_two), E(c06_three), E(c06_shrink), E(c07_print), E(c07_flags), E(c07_many),
        E(c08_table), E(c08_bigcount), E(c08_one), E(c09_values), E(c09_shapes), E(c10_set), E(c10_many), E(c10_id), E(c10_longid), E(c11_history), E(c11_copy), E(c11_query))
