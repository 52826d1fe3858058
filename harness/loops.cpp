// C16 and the recirculating cases of C17, C18, C19: concrete fluxes, arbitrary pore volumes.
#include "flowcase.hpp"

namespace {
int dirOf() { return pick("production", 2) ? -1 : 1; }

// Balance of one well's concentration and time of flight, and of the global time of flight, to the iteration tolerance.
const double TT = 0.02, CT = 5e-9;          // documented tolerances: 200 years * 1e-12 = 6.3e-3 s and 1e-9

void checkLoop(const Case& k, const Flow& f, const Result& r, double tmax, int sweeps = 2000)
{
    for (auto& w : f.well) {
        const auto reach = f.reachedWell(w.first);
        const Field& c = r.conc.at(w.first); const Field& t = r.ltof.at(w.first);
        for (int i = 0; i < f.n; ++i) symx_assert((c.count(i) == 1) == (reach[i] != 0) && (t.count(i) == 1) == (reach[i] != 0), "fields have entries for exactly the cells the well reaches");
        for (auto& p : c) {
            const int i = p.first;
            double cr = 0.0, tr = k.pv[i] * p.second;
            for (auto& u : f.up[i]) { auto q = c.find(u.first); if (q == c.end()) continue; cr += q->second * u.second; tr += u.second * q->second * t.at(u.first); }
            auto s = w.second.find(i); if (s != w.second.end()) cr += s->second;
            symx_assert(p.second > 0.0, "concentration is positive");
            symx_le(p.second, 1.0, 1e-8, "concentration is at most one");
            symx_close(p.second * f.F[i], cr, 1e-12, CT * f.F[i], "concentration balance holds in recirculating flow");
            symx_close(t.at(i) * (p.second * f.F[i]), tr, 1e-12, f.F[i] * (TT + CT * tmax), "time-of-flight balance of the well holds in recirculating flow");
        }
    }
    const auto reach = f.reachedAll();
    // global source fraction: solved here by the same balance, iterated far beyond the tolerance (concrete numbers)
    std::vector<double> g(f.n, 0.0);
    for (int it = 0; it < sweeps; ++it) for (int i = 0; i < f.n; ++i) if (reach[i]) {
        double num = f.src[i]; for (auto& u : f.up[i]) num += g[u.first] * u.second;
        g[i] = num / f.F[i];
    }
    for (int i = 0; i < f.n; ++i) {
        if (!reach[i]) { symx_assert(r.tof[i] == MAXTOF, "cells that no source feeds, closed loops included, have the limit"); continue; }
        double tr = k.pv[i] * g[i];
        for (auto& u : f.up[i]) if (reach[u.first]) tr += u.second * g[u.first] * r.tof[u.first];
        symx_close(r.tof[i] * (g[i] * f.F[i]), tr, 1e-12, f.F[i] * (TT + CT * tmax), "global time-of-flight balance holds in recirculating flow");
    }
}
}

// every orientation of the complete graph on three cells plus a second connection back
extern "C" void c16_three()
{
    const int sign = dirOf();
    Case c; c.n = 3;
    const double m[] = { 1.0, 0.5, 1.0 };
    const int ij[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 } };
    for (int e = 0; e < 3; ++e) { const int k = pick(nm("f", e), 3); c.conn(ij[e][0], ij[e][1], k == 0 ? 0.0 : k == 1 ? m[e] : -m[e]); }
    const int back = pick("back", 3);
    if (back < 2) c.conn(ij[back][1], ij[back][0], 0.125);
    const int at = pick("at", 3);
    c.in["A"][at] = sign * 4.0;
    if (pick("second", 2)) c.in["B"][(at + 1) % 3] = sign * 2.0;
    const int big = pick("which", 3);
    for (int i = 0; i < 3; ++i) c.pv.push_back(i == big ? symPos("pv", 0.0, 1e6) : 1.0 + i);
    Flow f(c, sign);
    symx_assume(!f.acyclic);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 2e7);
    symx_reach("three");
}

// larger loop structures: {from, to, flux in eighths} per connection
namespace {
struct Edge { int i, j; double f; };
struct Shape { int n; std::vector<Edge> e; std::vector<std::pair<int, double>> a, b; };
Shape shape(int k)
{
    switch (k) {
    case 0: return { 5, { { 0, 1, 1 }, { 1, 2, 1 }, { 2, 1, 0.25 }, { 2, 3, 1 }, { 3, 4, 1 }, { 4, 3, 0.25 } }, { { 0, 1 } }, { { 3, 1 } } };                 // two loops in series
    case 1: return { 5, { { 0, 1, 2 }, { 1, 2, 0.5 }, { 2, 0, 0.5 }, { 0, 3, 2 }, { 3, 4, 0.5 }, { 4, 0, 0.25 } }, { { 0, 4 } }, { { 2, 1 } } };               // figure eight
    case 2: return { 6, { { 0, 1, 1 }, { 1, 2, 1 }, { 3, 4, 1 }, { 4, 5, 1 }, { 5, 3, 1 }, { 5, 2, 0.5 } }, { { 0, 1 } }, { { 1, 1 } } };                     // closed loop that nothing feeds, upstream of fed cells
    case 3: return { 6, { { 5, 4, 2 }, { 4, 3, 2 }, { 3, 2, 2 }, { 2, 1, 2 }, { 1, 0, 2 }, { 0, 5, 0.5 }, { 2, 4, 0.25 } }, { { 5, 4 } }, { { 2, 2 } } };       // nested loops, numbered against the flow
    case 4: return { 4, { { 0, 1, 1 }, { 1, 0, 0.25 }, { 1, 2, 1 }, { 2, 1, 0.25 }, { 2, 3, 1 }, { 3, 2, 0.25 } }, { { 0, 2 } }, { { 1, 1 }, { 2, 1 } } };      // chain of exchange flows
    case 5: return { 5, { { 1, 2, 1 }, { 2, 3, 1 }, { 3, 1, 0.5 }, { 0, 1, 1 }, { 3, 4, 1 } }, { { 0, 1 } }, { { 0, 1 } } };                                    // loop fed from outside; two wells in one cell
    default: return { 5, { { 0, 1, 1 }, { 1, 2, 1 }, { 2, 0, 1 }, { 3, 4, 1 }, { 4, 3, 1 } }, { { 1, 4 } }, { { 1, 2 }, { 2, 2 } } };                           // loop with sources inside; isolated closed loop
    }
}
Case shapeCase(int k, int sign, bool second, int flip)
{
    Shape s = shape(k);
    Case c; c.n = s.n;
    // sign < 0: production diagnostics follow the flow backwards
    for (std::size_t e = 0; e < s.e.size(); ++e) { const double f = sign * s.e[e].f; if ((int) e % 2 == flip) c.conn(s.e[e].j, s.e[e].i, -f); else c.conn(s.e[e].i, s.e[e].j, f); }
    for (auto& p : s.a) c.in["A"][p.first] = sign * p.second;
    if (second) for (auto& p : s.b) c.in["B"][p.first] = sign * p.second;
    return c;
}
}
extern "C" void c16_shapes()
{
    const int sign = dirOf(), second = pick("second", 2);
    Case c = shapeCase(pick("shape", 7), sign, second, sign > 0);
    const int big = pick("which", c.n);
    for (int i = 0; i < c.n; ++i) c.pv.push_back(i == big ? symPos("pv", 0.0, 1e6) : i == (big + 1) % c.n ? 0.0 : 1.0 + i);
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 2e7);
    symx_reach("shapes");
}
// all pore volumes arbitrary at once
extern "C" void c16_volumes()
{
    const int sign = dirOf();
    Case c; c.n = 3;
    const double b = pick("strong", 2) ? 0.25 : 0.0625;
    c.conn(0, 1, sign * 1.0); c.conn(1, 2, sign * 1.0); c.conn(2, 0, sign * b);
    c.in["A"][0] = sign * 1.0;
    for (int i = 0; i < 3; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, 1e3));
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 2e5);
    symx_reach("volumes");
}
// slowly converging loop: many iterations
extern "C" void c16_slow()
{
    const int sign = dirOf();
    Case c; c.n = 3;
    c.conn(0, 1, sign * 1.0); c.conn(1, 0, sign * (pick("slow", 2) ? 0.9375 : 0.75)); c.conn(1, 2, sign * 0.0625);
    c.in["A"][0] = sign * 0.0625;
    c.pv = { symPos("pv", 0.0, 1e6), 2.0, 1.0 };
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 1e9);
    symx_reach("slow");
}
// very slowly converging loops: thousands of sweeps
extern "C" void c16_long()
{
    const int sign = dirOf(), k = pick("slow", 3);
    const double q = k == 0 ? 1.0 / 64 : k == 1 ? 1.0 / 512 : 1.0 / 2048;       // share of the flow that leaves the loop in each turn
    Case c; c.n = 3;
    c.conn(0, 1, sign * 1.0); c.conn(1, 0, sign * (1.0 - q)); c.conn(1, 2, sign * q);
    c.in["A"][0] = sign * q;
    c.pv = { k == 0 ? symPos("pv", 1.0, 2.0) : 2.0, 2.0, 1.0 };
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 1e6, 80000);
    symx_reach("long");
}
// weak recirculation with every quantity arbitrary
extern "C" void c16_weak()
{
    const int sign = dirOf();
    Case c; c.n = 2;
    const double f0 = symPos("f", 1.0, 2.0), g = symPos("g", 1e-12, 4e-12), s = symPos("s", 1.0, 2.0);
    c.conn(0, 1, sign * f0); c.conn(1, 0, sign * g);
    c.in["A"][0] = sign * s;
    c.pv = { symPos("pv0", 0.0, 1.0), symPos("pv1", 0.0, 1.0) };
    Flow f(c, sign);
    Result r = run(c, f, sign);
    symx_reach("weak solved");
    for (auto& w : f.well) {
        const Field& cc = r.conc.at(w.first); const Field& t = r.ltof.at(w.first);
        symx_assert(cc.size() == 2 && t.size() == 2, "fields have entries for exactly the cells the well reaches");
        for (int i = 0; i < 2; ++i) {
            const double up = i ? f0 : g, src = i ? 0.0 : s;
            symx_close(cc.at(i) * (up + src), cc.at(1 - i) * up + src, 0, 1e-8, "concentration balance holds in recirculating flow");
        }
    }
    symx_reach("weak");
}
// larger loops, a ladder of loops, and every flux and volume scaled
extern "C" void c16_big()
{
    const int sign = dirOf(), kind = pick("kind", 3), n = DEEP ? (kind == 2 ? 20 : oneOf<int>("n", { 12, 40 })) : kind == 0 ? 9 : kind == 1 ? 13 : 11, how = pick("numbering", 3);
    const double q = DEEP ? oneOf<double>("scale", { 1.0, 1e-9, 1e6 }) : how == 0 ? 1.0 : how == 1 ? 1e-9 : 1e6;
    Case c; c.n = n;
    auto id = [&](int i) { return renumber(i % n, n, how); };
    auto add = [&](int i, int j, double f) { if ((i + j) % 3) c.conn(id(i), id(j), sign * q * f); else c.conn(id(j), id(i), -sign * q * f); };
    if (kind == 0) { for (int i = 0; i < n; ++i) add(i, i + 1, i + 1 == n ? 0.25 : 1.0); }                            // one ring
    else if (kind == 1) { for (int i = 0; i + 1 < n; ++i) { add(i, i + 1, 1.0); if (i % 4 == 3) add(i, i - 3, 0.25); } }   // rings in series
    else for (int i = 0; i + 1 < n; ++i) { add(i, i + 1, 1.0); if (i > 1 && i % 2) add(i, i / 2, 0.0625); }           // nested
    c.in["A"][id(0)] = sign * q * 1.0;
    if (pick("second", 2)) { c.in["B"][id(n / 2)] = sign * q * 0.5; c.in["B"][id(0)] = sign * q * 0.5; }
    const int at = id(!DEEP || pick("at", 2) ? n / 2 + 1 : 1);
    for (int i = 0; i < n; ++i) c.pv.push_back(i == at ? symPos("pv", 0.0, 1e3 * q) : q * (1.0 + i % 3));
    Flow f(c, sign);
    symx_assert(!f.acyclic, "harness: the flow recirculates");
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 1e6);
    symx_reach("big");
}
// rings and ladders of many cells
extern "C" void c16_ring()
{
    const int sign = dirOf(), n = oneOf<int>("n", { 20, 70 }), how = pick("numbering", 3), ladder = pick("ladder", 2);
    Case c; c.n = n;
    auto id = [&](int i) { return renumber(i % n, n, how); };
    for (int i = 0; i < n; ++i) c.conn(id(i), id(i + 1), sign * (i + 1 == n ? 0.5 : 1.0));
    if (ladder) for (int i = 3; i < n; i += 3) c.conn(id(i - 2), id(i), -sign * 0.125);
    c.in["A"][id(0)] = sign * 0.5;
    for (int i = 0; i < n; ++i) c.pv.push_back(n == 20 && i == id(n / 2) ? symPos("pv", 1000.0, 1001.0) : 1e3 * (1.0 + i % 5));
    c.conn(id(n / 2), c.n++, sign * 0.5); c.pv.push_back(symPos("pvOutside", 0.0, 1e5));
    Flow f(c, sign);
    Result r = run(c, f, sign);
    checkLoop(c, f, r, 1e7);
    symx_reach("ring");
}
// limits inside and outside loops
extern "C" void c15_loop()
{
    const int sign = dirOf();
    Case c = shapeCase(pick("shape", 7), sign, false, 0);
    const int big = 1 + pick("which", 2);
    for (int i = 0; i < c.n; ++i) c.pv.push_back(i == big ? symPos("pv", 0.0, 1e11) : 1.0 + i);
    Flow f(c, sign); f.clearOfLimit(c);
    Result r = run(c, f, sign);
    checkRange(r);
    const auto reach = f.reachedAll();
    for (int i = 0; i < c.n; ++i) if (!reach[i] || f.limited(c, i)) symx_assert(r.tof[i] == MAXTOF, "unreached cells and cells slow to fill have exactly the limit");
    for (auto& w : r.ltof) for (auto& p : w.second) if (f.limited(c, p.first)) symx_assert(p.second == MAXTOF, "cells slow to fill have exactly the limit");
    symx_reach("loop limit");
}

// ------------------------------------------------------------------ other properties on recirculating flow
namespace {
Case negated(const Case& c)
{
    Case d = c;
    for (auto& k : d.fl) for (auto& x : k) x = -x;
    for (auto& w : d.in) for (auto& p : w.second) p.second = -p.second;
    return d;
}
void near(const Result& a, const Result& b, double ctol, double ttol, double trel, const char* what)
{
    symx_assert(a.tof.size() == b.tof.size() && a.conc.size() == b.conc.size() && a.ids == b.ids, what);
    for (std::size_t i = 0; i < a.tof.size(); ++i) symx_close(a.tof[i], b.tof[i], trel, ttol, what);
    for (auto& w : a.conc) { auto& v = b.conc.at(w.first); symx_assert(w.second.size() == v.size(), what); for (auto& p : w.second) { symx_assert(v.count(p.first) == 1, what); symx_close(p.second, v.at(p.first), 0, ctol, what); } }
    for (auto& w : a.ltof) { auto& v = b.ltof.at(w.first); symx_assert(w.second.size() == v.size(), what); for (auto& p : w.second) { symx_assert(v.count(p.first) == 1, what); symx_close(p.second, v.at(p.first), trel, ttol, what); } }
}
}
extern "C" void c17_loop()
{
    const int sign = dirOf();
    Case c = shapeCase(pick("shape", 7), sign, pick("second", 2), pick("flip", 2));
    for (int i = 0; i < c.n; ++i) c.pv.push_back(i == 1 ? symPos("pv", 0.0, 1e5) : 1.0 + i);
    Flow f(c, sign);
    Case d = negated(c);
    Result a = run(c, f, sign), b = run(d, Flow(d, -sign), -sign);
    near(a, b, 1e-12, 0, 1e-12, "production diagnostics equal injection diagnostics of the negated case");
    symx_reach("loop");
}
extern "C" void c18_loop()
{
    const int sign = 1;
    Case c = shapeCase(pick("shape", 7), sign, pick("second", 2), 0), d = c;
    const int kind = pick("kind", 4);
    for (int i = 0; i < c.n; ++i) c.pv.push_back(i == 1 ? symPos("pv", 0.0, 1e5) : 1.0 + i);
    d.pv = c.pv;
    if (kind == 0) for (int k = 0; k < d.edges(); ++k) if (k % 3 != 1) { std::swap(d.nb[2 * k], d.nb[2 * k + 1]); for (auto& x : d.fl[k]) x = -x; }
    if (kind == 1) { Case e = d; for (int k = 0; k < d.edges(); ++k) { const int q = d.edges() - 1 - k; e.nb[2 * k] = d.nb[2 * q]; e.nb[2 * k + 1] = d.nb[2 * q + 1]; e.fl[k] = d.fl[q]; } d = e; }
    if (kind == 2) for (int k = 0; k < d.edges(); ++k) { const double x = d.fl[k][0]; d.fl[k] = { -0.5, x + 0.75, -0.25 }; }
    if (kind == 3) { const int m = d.edges(); for (int k = 0; k < m; ++k) { const double x = d.fl[k][0]; d.fl[k][0] = 0.75 * x; d.conn(d.nb[2 * k], d.nb[2 * k + 1], 0.25 * x); d.conn(0, d.n - 1, 0.0); } }
    Flow f(c, sign);
    Result a = run(c, f, sign), b = run(d, f, sign);
    near(a, b, 1e-8, 0.1, 1e-7, "both descriptions give the same results");
    symx_reach("loop");
}
extern "C" void c19_loop()
{
    const int sign = dirOf(), k = pick("shape", 7);
    Case c = shapeCase(k, sign, true, pick("flip", 2));
    // one rate is arbitrary among a few, volumes concrete: concentrations do not depend on them
    const double scale = oneOf<double>("rate", { 0.125, 1.0, 8.0 });
    for (auto& p : c.in["B"]) p.second *= scale;
    for (int i = 0; i < c.n; ++i) c.pv.push_back(1.0 + i);
    Flow f(c, sign);
    Result r = run(c, f, sign);
    for (int i = 0; i < c.n; ++i) {
        double sum = 0.0; for (auto& w : r.conc) { auto q = w.second.find(i); if (q != w.second.end()) sum += q->second; }
        symx_le(sum, 1.0, 1e-7, "concentrations sum to at most one");
        // everything upstream is fed by the wells alone unless an unfed closed loop lies upstream
        const auto reach = f.reachedAll();
        bool clean = reach[i];
        std::set<int> up{ i }; for (int it = 0; it < c.n; ++it) for (int x : std::set<int>(up)) for (auto& u : f.up[x]) up.insert(u.first);
        for (int x : up) if (!reach[x]) clean = false;
        if (clean) symx_close(sum, 1.0, 0, 1e-7, "concentrations sum to one where all inflow comes from the wells");
    }
    symx_reach("loop");
}
ENTRIES(E(c16_three), E(c16_shapes), E(c16_volumes), E(c16_slow), E(c16_long), E(c16_weak), E(c16_big), E(c16_ring), E(c15_loop), E(c17_loop), E(c18_loop), E(c19_loop))
