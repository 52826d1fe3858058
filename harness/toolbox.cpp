// C12-C15, C17-C19: symbolic fluxes, sources and pore volumes on flows without recirculation.
#include "flowcase.hpp"

#ifndef TN
#define TN 3
#endif

namespace {
const double FLO = 0.015625, FHI = 64.0;

// complete graph on n cells, each connection with a symbolic flux (zero allowed)
void addComplete(Case& c, int n)
{
    c.n = n;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) c.conn(i, j, symFlux(nm("f", i, j), FLO, FHI));
}
void addPv(Case& c, double hi) { for (int i = 0; i < c.n; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, hi)); }
void addWell(Case& c, const char* id, int mask, int sign)
{
    for (int i = 0; i < c.n; ++i) if (mask >> i & 1) c.in[id][i] = sign * symPos(std::string("s") + id + std::to_string(i), FLO, FHI);
}

// one or two wells on a 3-cell flow
Case dag(int wells, int sign, double pvhi)
{
    Case c;
    addComplete(c, TN);
    addWell(c, "A", 1 + pick("maskA", (1 << TN) - 1), sign);
    if (wells > 1) addWell(c, "B", 1 + pick("maskB", (1 << TN) - 1), sign);
    addPv(c, pvhi);
    return c;
}
int dirOf() { return pick("production", 2) ? -1 : 1; }
}

extern "C" void c12_dag()
{
    const int sign = dirOf();
    Case c = dag(1, sign, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 0);
    symx_reach("dag");
}

// fixed list of well pairs on three cells: disjoint, nested, equal, crossing
namespace {
const int pairs[][2] = { { 1, 2 }, { 1, 1 }, { 3, 2 }, { 3, 6 }, { 7, 1 }, { 2, 4 } };
Case dag2(int sign, double pvhi, int npairs)
{
    Case c;
    addComplete(c, 3);
    const int k = pick("wells", npairs);
    addWell(c, "A", pairs[k][0], sign); addWell(c, "B", pairs[k][1], sign);
    addPv(c, pvhi);
    return c;
}
// diamond 0-1,0-2,1-3,2-3 with optional cross connection 1-2; listed with mixed orientation
Case diamond(int sign, double pvhi, bool cross)
{
    Case c; c.n = 4;
    c.conn(0, 1, symFlux("f01", FLO, FHI)); c.conn(2, 0, symFlux("f20", FLO, FHI));
    c.conn(3, 1, symFlux("f31", FLO, FHI)); c.conn(2, 3, symFlux("f23", FLO, FHI));
    if (cross) c.conn(1, 2, symFlux("f12", FLO, FHI));
    const int masks[] = { 1, 2, 8, 9, 5 };
    addWell(c, "A", masks[pick("maskA", cross ? 3 : 5)], sign);
    addPv(c, pvhi);
    return c;
}
}

extern "C" void c12_diamond()
{
    const int sign = dirOf();
    Case c = diamond(sign, 1.0, false);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 0);
    symx_reach("diamond");
}
extern "C" void c12_wells()
{
    nameScheme = 2;
    // sources of several wells, and of the opposite sign as well
    const int sign = dirOf();
    Case c = dag2(sign, 1.0, 4);
    addWell(c, "P", 4, -sign);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 0);
    symx_reach("wells");
}

extern "C" void c13_dag()
{
    const int sign = dirOf();
    Case c = dag(1, sign, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkConc(f, r, 1e-9, 0);
    symx_reach("dag");
}
extern "C" void c13_wells()
{
    nameScheme = 1;
    const int sign = dirOf();
    Case c = dag2(sign, 1.0, 6);
    addWell(c, "P", 4, -sign);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkConc(f, r, 1e-9, 0);
    symx_reach("wells");
}
extern "C" void c13_diamond()
{
    const int sign = dirOf();
    Case c = diamond(sign, 1.0, false);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkConc(f, r, 1e-9, 0);
    symx_reach("diamond");
}

extern "C" void c14_dag()
{
    const int sign = dirOf();
    Case c = dag(1, sign, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkLocal(c, f, r, 1e-9, 0);
    for (auto& p : r.ltof.at("A")) symx_close(p.second, r.tof[p.first], 1e-9, 0, "the only source's time-of-flight coincides with the global one");
    symx_reach("dag");
}
extern "C" void c14_wells()
{
    nameScheme = 3;
    const int sign = dirOf();
    Case c = dag2(sign, 1.0, 4);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkLocal(c, f, r, 1e-9, 0);
    symx_reach("wells");
}

// Concrete fluxes: values are linear in the pore volumes, which range far beyond the 200-year limit.
namespace {
const double mags[] = { 0.0, 1.0, -0.25, 2.0, -0.5 };
Case limitCase(int sign, int n, bool ring)
{
    Case c; c.n = n;
    for (int i = 0; i + 1 < n; ++i) c.conn(i, i + 1, mags[pick(nm("f", i), 3)]);
    if (ring) c.conn(n - 1, 0, mags[pick("fr", 3)]);
    c.conn(0, 2, mags[pick("f02", 3)]);
    c.in["A"][pick("A", 2)] = sign * 1.0;
    if (pick("second", 2)) c.in["B"][1] = sign * 0.5;
    for (int i = 0; i < n; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, 1e11));
    return c;
}
}
extern "C" void c12_limit()
{
    const int sign = dirOf();
    Case c = limitCase(sign, 3, false);
    Flow f(c, sign);
    symx_assume(f.acyclic); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    const auto R = exactTof(c, f, fractions(f, nullptr));
    for (int i = 0; i < c.n; ++i) limitClose(r.tof[i], R[i], "global time-of-flight solves the balance with upstream limits");
    symx_reach("limit");
}
extern "C" void c14_limit()
{
    const int sign = dirOf();
    Case c = limitCase(sign, 3, false);
    Flow f(c, sign);
    symx_assume(f.acyclic); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    for (auto& w : f.well) {
        const auto g = fractions(f, &w.second);
        const auto R = exactTof(c, f, g);
        for (auto& p : r.ltof.at(w.first)) limitClose(p.second, R[p.first], "per-well time-of-flight solves the balance with upstream limits");
    }
    symx_reach("limit");
}

extern "C" void c15_limit()
{
    const int sign = dirOf();
    Case c = limitCase(sign, 3, false);
    Flow f(c, sign);
    symx_assume(f.acyclic); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    checkRange(r);
    const auto reach = f.reachedAll();
    for (int i = 0; i < c.n; ++i) if (!reach[i] || f.limited(c, i)) symx_assert(r.tof[i] == MAXTOF, "unreached cells and cells slow to fill have exactly the limit");
    for (auto& w : r.ltof) for (auto& p : w.second) if (f.limited(c, p.first)) symx_assert(p.second == MAXTOF, "cells slow to fill have exactly the limit");
    symx_reach("limit");
}
extern "C" void c15_dag()
{
    const int sign = dirOf();
    Case c = dag(1, sign, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkRange(r);
    const auto reach = f.reachedAll();
    for (int i = 0; i < c.n; ++i) if (!reach[i]) symx_assert(r.tof[i] == MAXTOF, "unreached cells have exactly the limit");
    symx_reach("dag");
}
// one cell, arbitrary source and pore volume: the limit itself
extern "C" void c15_fill()
{
    const int sign = dirOf();
    Case c; c.n = 2;
    const double s = symPos("s", 1e-9, 1.0), q = symPos("f", 1e-9, 1.0);
    c.conn(0, 1, sign * q);
    c.in["A"][0] = sign * s;
    c.pv = { symPos("pv0", 0.0, 1e14), symPos("pv1", 0.0, 1e14) };
    Flow f(c, sign); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    checkRange(r);
    if (f.limited(c, 0)) symx_assert(r.tof[0] == MAXTOF && r.ltof.at("A").at(0) == MAXTOF, "a cell slow to fill has exactly the limit");
    else { symx_close(r.tof[0] * s, c.pv[0], 1e-9, 0, "otherwise the source cell has its filling time"); }
    if (f.limited(c, 1)) symx_assert(r.tof[1] == MAXTOF && r.ltof.at("A").at(1) == MAXTOF, "a cell slow to fill has exactly the limit");
    symx_reach("fill");
}

// ------------------------------------------------------------------ C17
namespace {
Case negated(const Case& c)
{
    Case d = c;
    for (auto& k : d.fl) for (auto& x : k) x = -x;
    for (auto& w : d.in) for (auto& p : w.second) p.second = -p.second;
    return d;
}
struct Outcome { bool ok = false; Result r; };
Outcome attempt(const Case& c, const std::vector<FD::CellSet>& s, int sign)
{
    Outcome o;
    std::vector<std::string> w; for (auto& x : s) w.push_back(x.id().to_string());
    try { FD::Toolbox t(c.graph()); c.assign(t); o.r.from(compute(t, s, sign), w); o.ok = true; } catch (const std::exception&) {}
    return o;
}
void sameField(const Field& a, const Field& b, double rtol, const char* what)
{
    symx_assert(a.size() == b.size(), what);
    auto q = b.begin();
    for (auto& p : a) { symx_assert(p.first == q->first, what); symx_close(p.second, q->second, rtol, 0, what); ++q; }
}
void sameResult(const Result& a, const Result& b, double rtol, const char* what)
{
    symx_assert(a.tof.size() == b.tof.size() && a.conc.size() == b.conc.size() && a.ids == b.ids, what);
    for (std::size_t i = 0; i < a.tof.size(); ++i) symx_close(a.tof[i], b.tof[i], rtol, 0, what);
    for (auto& w : a.conc) sameField(w.second, b.conc.at(w.first), rtol, what);
    for (auto& w : a.ltof) sameField(w.second, b.ltof.at(w.first), rtol, what);
}
}
extern "C" void c17_mirror()
{
    const int sign = dirOf();
    Case c; addComplete(c, 3);
    const int k = pick("wells", 3);
    addWell(c, "A", pairs[k][0], sign); addWell(c, "B", pairs[k][1], -sign);
    addPv(c, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(negated(c), s, -sign);
    symx_assert(a.ok && b.ok, "both are accepted");
    sameResult(a.r, b.r, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach("mirror");
}
extern "C" void c17_accept()
{
    // arbitrary inflow signs and start sets
    Case c; c.n = 2; c.conn(0, 1, symFlux("f", FLO, FHI)); c.pv = { 1.0, 2.0 };
    for (int i = 0; i < 2; ++i) { c.in["A"][i] = symFlux(nm("a", i), FLO, FHI); if (pick(nm("hasB", i), 2)) c.in["B"][i] = symFlux(nm("b", i), FLO, FHI); }
    const int m = pick("cells", 4), id = pick("id", 3);
    std::vector<int> cells; for (int i = 0; i < 2; ++i) if (m >> i & 1) cells.push_back(i);
    std::vector<FD::CellSet> s{ FD::CellSet(FD::CellSetID(id == 0 ? "A" : id == 1 ? "B" : "C"), cells) };
    const int sign = dirOf();
    Outcome a = attempt(c, s, sign), b = attempt(negated(c), s, -sign);
    symx_assert(a.ok == b.ok, "the same start sets are accepted");
    if (a.ok && b.ok) sameResult(a.r, b.r, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach(a.ok ? "accepted" : "rejected");
}
extern "C" void c17_limits()
{
    // linear cases beyond the 200-year limit
    Case c = limitCase(1, 3, false);
    c.in["Z"][2] = -0.75;
    Flow f(c, 1);
    symx_assume(f.acyclic);
    const int sign = dirOf();
    f.clearOfLimit(c); Flow(c, -1).clearOfLimit(c);
    auto s = startSets(Flow(c, sign));
    Outcome a = attempt(c, s, sign), b = attempt(negated(c), s, -sign);
    symx_assert(a.ok && b.ok, "both are accepted");
    sameResult(a.r, b.r, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach("limits");
}

// ------------------------------------------------------------------ C18
namespace {
void flipConn(Case& c, int k) { const int t = c.nb[2 * k]; c.nb[2 * k] = c.nb[2 * k + 1]; c.nb[2 * k + 1] = t; for (auto& x : c.fl[k]) x = -x; }
void permute(Case& c, int which)
{
    const int perm[5][3] = { { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    Case d = c; for (int k = 0; k < 3; ++k) { const int s = perm[which][k]; d.nb[2 * k] = c.nb[2 * s]; d.nb[2 * k + 1] = c.nb[2 * s + 1]; d.fl[k] = c.fl[s]; }
    c = d;
}
void splitPhases(Case& c, int phases)
{
    for (int k = 0; k < c.edges(); ++k) {
        double rest = c.fl[k][0]; std::vector<double> v;
        for (int p = 0; p + 1 < phases; ++p) { double g = symDbl(nm("ph", k, p)); symx_assume(g >= -FHI && g <= FHI); v.push_back(g); rest = rest - g; }
        v.push_back(rest); c.fl[k] = v;
    }
}
bool splitParallel(Case& c, int k)
{
    const double f = c.fl[k][0];
    if (f == 0.0) return false;
    const double g = symDbl("part");
    if (f > 0.0) symx_assume(g >= FLO && g <= f - FLO); else symx_assume(g <= -FLO && g >= f + FLO);
    c.fl[k][0] = g; const int a = c.nb[2 * k], b = c.nb[2 * k + 1];
    if (pick("partFlipped", 2)) c.conn(b, a, -(f - g)); else c.conn(a, b, f - g);
    return true;
}
void addZero(Case& c, int pos)
{
    const int i = pick("zi", 3), j = (i + 1 + pick("zj", 2)) % 3;
    Case d; d.n = c.n; d.pv = c.pv; d.in = c.in;
    for (int k = 0; k <= c.edges(); ++k) { if (k == pos) d.conn(i, j, 0.0); if (k < c.edges()) { d.nb.push_back(c.nb[2 * k]); d.nb.push_back(c.nb[2 * k + 1]); d.fl.push_back(c.fl[k]); } }
    c = d;
}
void c18Case(int kind)
{
    const int sign = dirOf();
    Case c; addComplete(c, 3);
    const int k = pick("wells", 2);
    addWell(c, "A", pairs[k][0], sign); addWell(c, "B", k ? 2 : 2, sign);
    addPv(c, 1.0);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Case d = c;
    switch (kind) {
    case 0: flipConn(d, pick("conn", 3)); break;
    case 1: permute(d, pick("perm", 5)); break;
    case 2: splitPhases(d, 2 + pick("phases", 2)); break;
    case 3: if (!splitParallel(d, pick("conn", 3))) return; break;
    case 4: addZero(d, pick("pos", 4)); break;
    case 6: {
        // opposite phase fluxes much larger than their sum
        const int o = pick("phaseOrder", 3); const double big = 16777216.0;
        for (auto& v : d.fl) { const double x = v[0]; if (o == 0) v = { big, -big, x }; else if (o == 1) v = { -big, x, big }; else v = { x - big, big }; }
        break;
    }
    default: flipConn(d, pick("conn", 3)); permute(d, 2); splitPhases(d, 2); break;
    }
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(d, s, sign);
    symx_assert(a.ok && b.ok, "both descriptions are accepted");
    sameResult(a.r, b.r, kind == 6 ? 1e-5 : 1e-9, "both descriptions give the same results");
    symx_reach("same");
}
}
extern "C" void c18_flip() { c18Case(0); }
extern "C" void c18_permute() { c18Case(1); }
extern "C" void c18_phases() { c18Case(2); }
extern "C" void c18_parallel() { c18Case(3); }
extern "C" void c18_zero() { c18Case(4); }
extern "C" void c18_cancel() { c18Case(6); }
extern "C" void c18_all() { c18Case(5); }

// ------------------------------------------------------------------ C19
namespace {
void checkShares(const Flow& f, const Result& r, double tol)
{
    // cells all of whose inflow comes from wells: every upstream cell without sources is itself such a cell with inflow
    std::vector<char> clean(f.n, 0);
    for (int i : f.order) { bool ok = f.hasSrc[i] || !f.up[i].empty(); for (auto& u : f.up[i]) if (!clean[u.first]) ok = false; clean[i] = ok; }
    for (int i = 0; i < f.n; ++i) {
        double sum = 0.0; for (auto& w : r.conc) { auto q = w.second.find(i); if (q != w.second.end()) sum += q->second; }
        symx_le(sum, 1.0, tol, "concentrations sum to at most one");
        if (clean[i]) symx_close(sum, 1.0, 0, tol, "concentrations sum to one where all inflow comes from the wells");
        if (f.up[i].empty() && f.hasSrc[i]) for (auto& w : f.well) { auto q = w.second.find(i); if (q != w.second.end()) symx_close(r.conc.at(w.first).at(i) * f.src[i], q->second, 1e-9, 0, "a cell's source is shared in proportion to the rates"); }
    }
}
}
extern "C" void c19_dag()
{
    nameScheme = 2;
    const int sign = dirOf();
    Case c = dag2(sign, 1.0, 6);
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkShares(f, r, 1e-9);
    symx_reach("dag");
}
extern "C" void c19_three()
{
    nameScheme = 1;
    const int sign = dirOf();
    Case c; c.n = 3;
    c.conn(0, 1, symFlux("f01", FLO, FHI)); c.conn(1, 2, symFlux("f12", FLO, FHI));
    addWell(c, "A", DEEP ? 1 + pick("maskA", 3) : 1 + 2 * pick("maskA", 2), sign); addWell(c, "B", 1, sign);
    addWell(c, "C", DEEP ? 1 + pick("maskC", 7) : oneOf("maskC", { 1, 4, 7 }), sign);
    c.pv = { 1.0, 2.0, 0.5 };
    Flow f(c, sign);
    symx_assume(f.acyclic);
    Result r = run(c, f, sign);
    checkShares(f, r, 1e-9);
    symx_reach("three");
}

// ------------------------------------------------------------------ larger flows: concrete fluxes, two arbitrary pore volumes or one arbitrary rate
namespace {
void fillPv(Case& c, int a, int b)
{
    for (int i = 0; i < c.n; ++i) c.pv.push_back(i == a || i == b ? symPos(nm("pv", i), 0.0, 1e3) : i % 7 == 3 ? 0.0 : 0.5 + i % 11);
}
Case chainCase(int sign, bool rate)
{
    const int n = DEEP ? oneOf("cells", { 20, 70, 300, 1100 }) : oneOf("cells", { 20, 70, 300 }), how = pick("numbering", 3);
    Case c = bigChain(n, how, sign);
    if (rate) { c.in["B"][renumber(n / 2, n, how)] = sign * symPos("rate", 0.25, 4.0); fillPv(c, -1, -1); }
    else fillPv(c, renumber(1, n, how), renumber(n / 2 + 1, n, how));
    return c;
}
Case gridCase(int sign, bool rate)
{
    const int g = pick("grid", 2 + DEEP), how = pick("numbering", 3), nx = g == 0 ? 4 : g == 1 ? 7 : 21, ny = g == 0 ? 4 : g == 1 ? 6 : 15;
    Case c = bigGrid(nx, ny, how, sign, g == 0 ? 6 : 11);
    const int n = c.n;
    if (rate) { for (auto& p : c.in["W1"]) p.second = sign * symPos(nm("rate", p.first), 0.25, 4.0); fillPv(c, -1, -1); }
    else fillPv(c, renumber(1, n, how), renumber(n - 2, n, how));
    return c;
}
Case crowdCase(int sign, bool rate)             // many wells
{
    const int n = 70, how = pick("numbering", 3);
    Case c = bigChain(n, how, sign);
    for (int i = 2; i < 68; ++i) c.in["V" + std::to_string(i)][renumber(i, n, how)] = sign * (rate && i == 67 ? symPos("rate", 0.03125, 4.0) : 0.03125);
    fillPv(c, rate ? -1 : renumber(65, n, how), -1);
    return c;
}
template <class F> void bigFlow(F check, Case (*make)(int, bool), bool rate)
{
    const int sign = dirOf();
    Case c = make(sign, rate);
    Flow f(c, sign);
    symx_assert(f.acyclic, "harness: the flow has no recirculation");
    Result r = run(c, f, sign);
    check(c, f, r);
    symx_reach("big");
}
}
// Tens of thousands of cells: a chain through all of them, a second source near its end, then a cell aside that nothing reaches.
// Closed form: the time of flight grows by pore volume / flux; the second source dilutes.
namespace {
void wideFlow(int what)
{
    const int sign = dirOf(), n = 66001, step = oneOf<int>("step", { 1, 977 }), m = n - 1, late = m - 3;
    auto cell = [&](int k) { return (int) ((long) k * step % n); };
    const double q = symPos("q", 0.25, 4.0), v = symPos("v", 0.5, 2.0), s = sign;
    Case c; c.n = n; c.pv.assign(n, 1.0); c.pv[cell(m - 2)] = v;
    for (int k = 0; k + 1 < m; ++k) {
        const double f = k < late ? 1.0 : 1.0 + q;
        if (k % 3) c.conn(cell(k), cell(k + 1), s * f); else c.conn(cell(k + 1), cell(k), -s * f);
    }
    c.conn(cell(m - 1), cell(m), 0.0);
    c.in["I"][cell(0)] = s; c.in["J"][cell(late)] = s * q; c.in["P"][cell(m - 1)] = -s * (1.0 + q);
    FD::Toolbox t(c.graph());
    c.assign(t);
    const std::vector<FD::CellSet> start{ FD::CellSet(FD::CellSetID("I"), { cell(0) }), FD::CellSet(FD::CellSetID("J"), { cell(late) }) };
    const FD::Solution r = compute(t, start, sign);
    if (what == 12 || what == 15) {
        const auto& tof = r.timeOfFlight();
        symx_assert((int) tof.size() == n, "one time of flight per cell");
        bool ok = true; for (int k = 0; k < late; ++k) ok = ok && tof[cell(k)] == k + 1.0;
        symx_assert(ok, "time of flight balance");
        double x = (late + 1.0) / (1.0 + q); symx_close(tof[cell(late)], x, 1e-9, 0, "time of flight balance");
        x += v / (1.0 + q); symx_close(tof[cell(m - 2)], x, 1e-9, 0, "time of flight balance");
        x += 1.0 / (1.0 + q); symx_close(tof[cell(m - 1)], x, 1e-9, 0, "time of flight balance");
        symx_assert(tof[cell(m)] == MAXTOF, "unreached cells have the limit");
    } else {
        const FD::CellSetValues i = what == 13 ? r.concentration(FD::CellSetID("I")) : r.timeOfFlight(FD::CellSetID("I")), j = what == 13 ? r.concentration(FD::CellSetID("J")) : r.timeOfFlight(FD::CellSetID("J"));
        symx_assert((int) i.size() == m && (int) j.size() == 3, "entries for exactly the cells the well reaches");
        bool ok = true; for (int k = 0; k < late; ++k) { auto p = i.find(cell(k)); ok = ok && p != i.end() && p->second == (what == 13 ? 1.0 : k + 1.0); }
        symx_assert(ok, what == 13 ? "concentration balance" : "travel time balance");
        double x = late, y = 0.0;
        for (int k = late; k < m; ++k) {
            auto a = i.find(cell(k)), b = j.find(cell(k));
            symx_assert(a != i.end() && b != j.end(), "entries for exactly the cells the well reaches");
            const double add = (k == m - 2 ? v : 1.0) / (1.0 + q); x += add; y += add;
            symx_close(a->second, what == 13 ? 1.0 / (1.0 + q) : x, 1e-9, 0, what == 13 ? "concentration balance" : "travel time balance");
            symx_close(b->second, what == 13 ? q / (1.0 + q) : y, 1e-9, 0, what == 13 ? "concentration balance" : "travel time balance");
        }
    }
    symx_reach("wide");
}
}
extern "C" void c12_wide() { wideFlow(12); }
extern "C" void c13_wide() { wideFlow(13); }
extern "C" void c14_wide() { wideFlow(14); }
extern "C" void c15_wide() { wideFlow(15); }
extern "C" void c12_chain() { bigFlow([](const Case& c, const Flow& f, const Result& r) { checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 1e-9); }, chainCase, false); }
extern "C" void c12_many() { bigFlow([](const Case& c, const Flow& f, const Result& r) { checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 1e-9); }, gridCase, false); }
extern "C" void c13_chain() { bigFlow([](const Case&, const Flow& f, const Result& r) { checkConc(f, r, 1e-9, 1e-12); }, chainCase, true); }
extern "C" void c13_many() { bigFlow([](const Case&, const Flow& f, const Result& r) { checkConc(f, r, 1e-9, 1e-12); }, gridCase, true); }
extern "C" void c14_chain() { bigFlow([](const Case& c, const Flow& f, const Result& r) { checkLocal(c, f, r, 1e-9, 1e-9); }, chainCase, false); }
extern "C" void c14_many() { bigFlow([](const Case& c, const Flow& f, const Result& r) { checkLocal(c, f, r, 1e-9, 1e-9); }, gridCase, false); }
extern "C" void c13_crowd() { bigFlow([](const Case&, const Flow& f, const Result& r) { checkConc(f, r, 1e-9, 1e-12); }, crowdCase, true); }
extern "C" void c14_crowd() { bigFlow([](const Case& c, const Flow& f, const Result& r) { checkLocal(c, f, r, 1e-9, 1e-9); }, crowdCase, false); }
extern "C" void c19_crowd() { bigFlow([](const Case&, const Flow& f, const Result& r) { checkShares(f, r, 1e-9); }, crowdCase, true); }
extern "C" void c15_big() { bigFlow([](const Case& c, const Flow& f, const Result& r) {
    checkRange(r); const auto reach = f.reachedAll();
    for (int i = 0; i < c.n; ++i) if (!reach[i] || f.limited(c, i)) symx_assert(r.tof[i] == MAXTOF, "unreached cells and cells slow to fill have exactly the limit"); }, gridCase, false); }
extern "C" void c17_big()
{
    const int sign = dirOf();
    Case c = pick("kind", 2) ? gridCase(sign, false) : chainCase(sign, false);
    Flow f(c, sign);
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(negated(c), s, -sign);
    symx_assert(a.ok && b.ok, "both are accepted");
    sameResult(a.r, b.r, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach("big");
}
extern "C" void c18_big()
{
    const int sign = dirOf(), kind = pick("kind", 4);
    Case c = pick("grid?", 2) ? gridCase(sign, false) : chainCase(sign, false);
    Case d; d.n = c.n; d.in = c.in; d.pv = c.pv;
    const int m = c.edges();
    for (int q = 0; q < m; ++q) {
        const int k = kind == 0 ? q : kind == 1 ? m - 1 - q : (int) ((q * 5003L + 1) % m);
        const int a = c.nb[2 * k], b = c.nb[2 * k + 1]; const double x = c.fl[k][0];
        const bool fl = (k * 3 + kind) % 5 < 2;
        if (kind == 2) { d.nb.push_back(a); d.nb.push_back(b); d.fl.push_back({ 0.25, x - 1.0, 0.5, 0.0, -2.0, 0.0, 0.75, 0.0, 0.25, 1.25 }); continue; }
        const double part = kind == 3 ? 0.375 * x : 0.0;
        if (fl) d.conn(b, a, -(x - part)); else d.conn(a, b, x - part);
        if (part != 0.0) d.conn(a, b, part);
    }
    if (kind == 3) for (int i = 0; i + 4 < c.n; i += 3) d.conn(i, i + 4, 0.0);
    Flow f(c, sign);
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(d, s, sign);
    symx_assert(a.ok && b.ok, "both descriptions are accepted");
    sameResult(a.r, b.r, 1e-9, "both descriptions give the same results");
    symx_reach("big");
}
extern "C" void c19_big() { bigFlow([](const Case&, const Flow& f, const Result& r) { checkShares(f, r, 1e-9); }, gridCase, true); }

// a well with rates of both signs: only those of the right sign count
extern "C" void c13_sign()
{
    const int sign = dirOf();
    Case c; c.n = 3;
    c.conn(0, 1, symFlux("f01", FLO, FHI)); c.conn(2, 1, symFlux("f21", FLO, FHI));
    for (int i = 0; i < 3; ++i) c.in["A"][i] = symFlux(nm("s", i), FLO, FHI);
    c.in["B"][1] = sign * symPos("b", FLO, FHI);
    c.pv = { 1.0, 2.0, 0.5 };
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkConc(f, r, 1e-9, 0);
    symx_reach("sign");
}

// magnitudes from tiny to huge: nothing may depend on absolute thresholds
namespace {
Case scaleCase(int sign)
{
    const double lo = 1e-30, hi = 1e12;
    Case c; c.n = 3;
    const double a = sign * symPos("f01", lo, hi), b = sign * symPos("f12", lo, hi);
    if (pick("flip", 2)) { c.conn(1, 0, -a); c.conn(1, 2, b); } else { c.conn(0, 1, a); c.conn(2, 1, -b); }
    c.in["A"][0] = sign * symPos("sA", lo, hi);
    const int second = pick("second", 3); if (second) c.in["B"][second - 1] = sign * symPos("sB", lo, hi);
    for (int i = 0; i < 3; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, 1e6));
    return c;
}
template <class F> void scaled(F check)
{
    const int sign = dirOf();
    Case c = scaleCase(sign);
    Flow f(c, sign); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    check(c, f, r);
    symx_reach("scale");
}
}
extern "C" void c12_scale() { scaled([](const Case& c, const Flow& f, const Result& r) { checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 0); }); }
extern "C" void c13_scale() { scaled([](const Case&, const Flow& f, const Result& r) { checkConc(f, r, 1e-9, 0); }); }
extern "C" void c14_scale() { scaled([](const Case& c, const Flow& f, const Result& r) { checkLocal(c, f, r, 1e-9, 0); }); }
extern "C" void c19_scale() { scaled([](const Case&, const Flow& f, const Result& r) { checkShares(f, r, 1e-9); }); }

extern "C" void c15_scale() { scaled([](const Case& c, const Flow& f, const Result& r) {
    checkRange(r); const auto reach = f.reachedAll();
    for (int i = 0; i < c.n; ++i) if (!reach[i] || f.limited(c, i)) symx_assert(r.tof[i] == MAXTOF, "unreached cells and cells slow to fill have exactly the limit"); }); }
extern "C" void c17_scale()
{
    const int sign = dirOf();
    Case c = scaleCase(sign); Flow f(c, sign); f.clearOfLimit(c);
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(negated(c), s, -sign);
    symx_assert(a.ok && b.ok, "both are accepted");
    sameResult(a.r, b.r, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach("scale");
}
extern "C" void c18_scale()
{
    const int sign = dirOf(), kind = pick("kind", 4);
    Case c = scaleCase(sign); Flow f(c, sign); f.clearOfLimit(c);
    Case d = c;
    if (kind == 0) { flipConn(d, 0); flipConn(d, 1); }
    else if (kind == 1) { std::swap(d.nb[0], d.nb[2]); std::swap(d.nb[1], d.nb[3]); std::swap(d.fl[0], d.fl[1]); }
    else if (kind == 2) { for (auto& v : d.fl) { const double x = v[0]; v = { 0.25 * x, 0.75 * x }; } }
    else { const double x = d.fl[0][0]; d.fl[0][0] = 0.375 * x; d.conn(d.nb[1], d.nb[0], -0.625 * x); d.conn(0, 2, 0.0); }
    auto s = startSets(f);
    Outcome a = attempt(c, s, sign), b = attempt(d, s, sign);
    symx_assert(a.ok && b.ok, "both descriptions are accepted");
    sameResult(a.r, b.r, 1e-9, "both descriptions give the same results");
    symx_reach("scale");
}
// A cell with four neighbours, each of which brings in one of two tracers or none, or takes flow away.
namespace {
Case fanCase(int sign)
{
    Case c; c.n = 5;
    const int mid = oneOf("middle", { 1, 4 });
    for (int k = 0; k < 4; ++k) {
        const int cell = k < mid ? k : k + 1, what = pick(nm("spoke", k), 4);
        const double f = sign * (k == 0 || k == 2 ? symPos(nm("f", k), FLO, FHI) : 0.5 + k);
        if (what == 3) { if (k % 2) c.conn(mid, cell, f); else c.conn(cell, mid, -f); }
        else { if (k % 2) c.conn(mid, cell, -f); else c.conn(cell, mid, f); if (what < 2) c.in[what ? "B" : "A"][cell] = sign * (1.0 + k); }
    }
    nameScheme = ((int) c.in["A"].size() + 3 * (int) c.in["B"].size() + (sign > 0)) % 4;
    if (c.in["B"].empty()) c.in.erase("B");
    c.in["A"][mid] = -sign * 1.0;
    c.pv = { symPos("pv0", 0.0, 10.0), 1.0, 2.0, 0.5, 3.0 };
    return c;
}
template <class F> void fan(F check)
{
    const int sign = dirOf();
    Case c = fanCase(sign);
    Flow f(c, sign);
    Result r = run(c, f, sign);
    check(c, f, r);
    symx_reach("fan");
}
}
extern "C" void c12_fan() { fan([](const Case& c, const Flow& f, const Result& r) { checkGlobal(c, f, r, fractions(f, nullptr), 1e-9, 1e-9); }); }
extern "C" void c13_fan() { fan([](const Case&, const Flow& f, const Result& r) { checkConc(f, r, 1e-9, 1e-12); }); }
extern "C" void c14_fan() { fan([](const Case& c, const Flow& f, const Result& r) { checkLocal(c, f, r, 1e-9, 1e-9); }); }
extern "C" void c19_fan() { fan([](const Case&, const Flow& f, const Result& r) { checkShares(f, r, 1e-9); }); }

ENTRIES(E(c12_fan), E(c13_fan), E(c14_fan), E(c19_fan), E(c12_dag), E(c12_diamond), E(c12_wells), E(c12_limit), E(c13_dag), E(c13_wells), E(c13_diamond), E(c14_dag), E(c14_wells), E(c14_limit), E(c15_dag), E(c15_limit), E(c15_fill),
        E(c17_mirror), E(c17_accept), E(c17_limits), E(c18_flip), E(c18_permute), E(c18_phases), E(c18_parallel), E(c18_zero), E(c18_all), E(c18_cancel), E(c19_dag), E(c19_three),
        E(c12_wide), E(c13_wide), E(c14_wide), E(c15_wide), E(c12_chain), E(c12_many), E(c13_chain), E(c13_many), E(c13_sign), E(c14_chain), E(c14_many), E(c13_crowd), E(c14_crowd), E(c19_crowd), E(c15_big), E(c17_big), E(c18_big), E(c19_big), E(c12_scale), E(c13_scale), E(c14_scale), E(c19_scale), E(c15_scale), E(c17_scale), E(c18_scale))
