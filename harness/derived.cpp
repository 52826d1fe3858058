// C22-C26: quantities derived from diagnostics.
#include "flowcase.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>

namespace {
typedef FD::Graph Curve;
typedef std::vector<double> V;

#ifndef DN
#define DN 3
#endif

// What the curve must be, given volumes, total travel times and which cells are ignored.
void checkCurve(const V& pv, const V& time, const std::vector<char>& skip, const Curve& g, const char* what)
{
    const int n = (int) pv.size();
    const V& P = g.first; const V& F = g.second;
    symx_assert((int) P.size() == n + 1 && (int) F.size() == n + 1, "the curve has one more point than there are cells");
    symx_assert(P[0] == 0.0 && F[0] == 0.0, "the curve starts at the origin");
    std::vector<int> ord; for (int i = 0; i < n; ++i) if (!skip[i]) ord.push_back(i);
    for (std::size_t a = 1; a < ord.size(); ++a) for (std::size_t b = a; b > 0 && time[ord[b]] < time[ord[b - 1]]; --b) std::swap(ord[b], ord[b - 1]);
    double tp = 0.0, tf = 0.0;
    for (int i : ord) { tp += pv[i]; tf += pv[i] / time[i]; }
    double cp = 0.0, cf = 0.0;
    const int m = (int) ord.size();
    for (int k = 0; k < m; ++k) {
        cp += pv[ord[k]]; cf += pv[ord[k]] / time[ord[k]];
        if (k + 1 < m && !(time[ord[k]] < time[ord[k + 1]])) continue;       // inside a group of equal travel times the order is free
        symx_close(P[k + 1] * tp, cp, 1e-9, 0, "storage is the cumulative pore volume by travel time");
        symx_close(F[k + 1] * tf, cf, 1e-9, 0, "flow is the cumulative flow by travel time");
    }
    for (int k = m; k <= n; ++k) { symx_close(P[k], 1.0, 0, 1e-9, "the curve ends at (1,1), ignored cells adding nothing"); symx_close(F[k], 1.0, 0, 1e-9, "the curve ends at (1,1), ignored cells adding nothing"); }
}
void checkShape(const Curve& g, bool concave)
{
    const V& P = g.first; const V& F = g.second;
    const double eps = 1e-9;
    for (std::size_t k = 1; k < P.size(); ++k) {
        symx_le(P[k - 1], P[k], eps, "storage never decreases");
        symx_le(F[k - 1], F[k], eps, "flow never decreases");
        symx_le(P[k], F[k], eps, "the curve is on or above the diagonal");
        if (concave && k + 1 < P.size()) symx_le((F[k + 1] - F[k]) * (P[k] - P[k - 1]), (F[k] - F[k - 1]) * (P[k + 1] - P[k]), eps, "the curve is concave");
    }
}
Curve curve(const V& a, const V& b, const V& pv, double frac, bool dflt) { return dflt ? FD::flowCapacityStorageCapacityCurve(a, b, pv) : FD::flowCapacityStorageCapacityCurve(a, b, pv, frac); }
}

// volumes arbitrary, travel times from a table (any order, ties included): everything is linear
extern "C" void c22_volumes()
{
    const int n = 1 + pick("n", DN + 1);
    const double tt[] = { 1.0, 2.5, 16.0 };
    V a, b, pv, t;
    for (int i = 0; i < n; ++i) { const double x = tt[pick(nm("t", i), 3)]; a.push_back(0.25 * x); b.push_back(0.75 * x); t.push_back(x); pv.push_back(symPos(nm("pv", i), 0.0625, 16.0)); }
    Curve g = curve(a, b, pv, 1.0, pick("default", 2));
    checkCurve(pv, t, std::vector<char>(n, 0), g, "");
    checkShape(g, false);
    symx_reach("volumes");
}
// travel times arbitrary, volumes concrete
extern "C" void c22_times()
{
    const int n = 3;
    const double vv[] = { 1.0, 0.5, 4.0 };
    V a, b, pv, t;
    for (int i = 0; i < n; ++i) { const double x = symPos(nm("t", i), 0.0625, 16.0), y = i ? symPos(nm("s", i), 0.0, 16.0) : 1.0; a.push_back(x); b.push_back(y); t.push_back(x + y); pv.push_back(vv[i]); }
    Curve g = curve(a, b, pv, 1.0, pick("default", 2));
    checkCurve(pv, t, std::vector<char>(n, 0), g, "");
    checkShape(g, true);
    symx_reach("times");
}
// both arbitrary, two cells
extern "C" void c22_two()
{
    V a, b, pv, t;
    for (int i = 0; i < 2; ++i) { const double x = symPos(nm("t", i), 0.0625, 16.0), y = symPos(nm("s", i), 0.0, 16.0); a.push_back(x); b.push_back(y); t.push_back(x + y); pv.push_back(symPos(nm("pv", i), 0.0625, 16.0)); }
    Curve g = curve(a, b, pv, 1.0, true);
    checkCurve(pv, t, { 0, 0 }, g, "");
    checkShape(g, true);
    symx_reach("two");
}
// the volume filter: fraction and volumes arbitrary
extern "C" void c22_filter()
{
    const int n = 1 + pick("n", 3);
    const int scale = pick("scale", 3);
    const double ts = scale == 0 ? 1.0 : scale == 1 ? MAXTOF : 1e-3, vs = scale == 0 ? 1.0 : scale == 1 ? 1e-14 : 1e12, tt[] = { 3.0 * ts, 1.0 * ts, 2.0 * ts, 1.0 * ts };
    V a, b, pv, t; double total = 0.0;
    for (int i = 0; i < n; ++i) { a.push_back(tt[i] / 2); b.push_back(tt[i] / 2); t.push_back(tt[i]); pv.push_back(symPos(nm("pv", i), 0.0625 * vs, 16.0 * vs)); total += pv[i]; }
    const double frac = oneOf<double>("frac", { 0.125, 0.25, 0.4375, 0.5, 0.75, 0.96875, 1.0 });
    std::vector<char> skip(n, 0); int left = 0;
    for (int i = 0; i < n; ++i) { if (pv[i] > frac * total) skip[i] = 1; else ++left; }
    symx_assume(left > 0);
    Curve g = curve(a, b, pv, frac, false);
    checkCurve(pv, t, skip, g, "");
    checkShape(g, false);
    symx_reach("filter");
}
// fraction itself arbitrary
extern "C" void c22_fraction()
{
    V a{ 1.0, 2.0, 0.5, 3.0 }, b{ 1.0, 1.0, 1.0, 1.0 }, pv{ 4.0, 1.0, 2.0, 1.0 }, t{ 2.0, 3.0, 1.5, 4.0 };
    const double frac = symPos("frac", 0.125, 4.0);
    std::vector<char> skip; for (double v : pv) skip.push_back(v > frac * 8.0);
    Curve g = curve(a, b, pv, frac, false);
    checkCurve(pv, t, skip, g, "");
    checkShape(g, true);
    symx_reach("fraction");
}
// more cells than the sort's insertion threshold
extern "C" void c22_many()
{
    const int n = oneOf<int>("n", { 17, 40 }), step = oneOf<int>("step", { 1, 7, 39 });
    const int at = pick("at", 4) * (n / 4);
    V a, b, pv, t;
    for (int i = 0; i < n; ++i) { const double x = i == at ? symPos("t", 0.0625, 64.0) : 1.0 + (i * step) % n; a.push_back(x); b.push_back(1.0); t.push_back(x + 1.0); pv.push_back(1.0 + i % 3); }
    Curve g = curve(a, b, pv, 1.0, true);
    checkCurve(pv, t, std::vector<char>(n, 0), g, "");
    symx_reach("many");
}
extern "C" void c22_wide()
{
    const int n = oneOf<int>("n", { 1200, 66000 }), step = oneOf<int>("step", { 1, 977 }), filt = pick("filter", 2);
    V a, b, pv;
    double x = symPos("pv", 1.0, 2.0); if (n > 1200) x = 1.5;
    // cell of rank r has travel time r+1 and volume 1 (2 at the ends); the slowest has an arbitrary volume; optionally one huge cell is ignored
    int huge = filt ? n / 3 : -1;
    for (int i = 0; i < n; ++i) { const int r = (int) ((long) i * step % n); a.push_back(0.5 * r); b.push_back(0.5 * r + 1.0); pv.push_back(i == huge ? 1e7 : r == n - 1 ? x : r % 5 == 0 ? 2.0 : 1.0); }
    Curve g = filt ? FD::flowCapacityStorageCapacityCurve(a, b, pv, 0.25) : FD::flowCapacityStorageCapacityCurve(a, b, pv);
    const int hr = filt ? (int) ((long) huge * step % n) : -1;
    symx_assert((int) g.first.size() == n + 1 && (int) g.second.size() == n + 1, "the curve has one more point than there are cells");
    double tp = 0, tf = 0; V cp(1, 0.0), cf(1, 0.0);
    for (int r = 0; r < n; ++r) if (r != hr) { const double v = r == n - 1 ? x : r % 5 == 0 ? 2.0 : 1.0; tp += v; tf += v / (r + 1.0); cp.push_back(tp); cf.push_back(tf); }
    const int stride = n / 50;
    for (int k = 0; k < (int) cp.size(); k += k + stride + 2 < (int) cp.size() ? stride : 1) { symx_close(g.first[k] * tp, cp[k], 1e-9, 0, "storage is the cumulative pore volume by travel time"); symx_close(g.second[k] * tf, cf[k], 1e-9, 0, "flow is the cumulative flow by travel time"); }
    for (int k = (int) cp.size() - 1; k <= n; ++k) { symx_close(g.first[k], 1.0, 0, 1e-9, "the curve ends at (1,1), ignored cells adding nothing"); symx_close(g.second[k], 1.0, 0, 1e-9, "the curve ends at (1,1), ignored cells adding nothing"); }
    symx_reach("wide");
}
// magnitudes from tiny to the 200-year limit and beyond, cells without volume
extern "C" void c22_scales()
{
    const int n = 3;
    const double ts = oneOf<double>("timescale", { 1e-9, 1.0, 1e7, MAXTOF }), vs = oneOf<double>("volumescale", { 1e-12, 1.0, 1e9 });
    const double tt[] = { 0.5, 1.0, 2.0 };
    V a, b, pv, t; const int empty = pick("empty", 4);
    for (int i = 0; i < n; ++i) { const double x = ts * tt[pick(nm("t", i), 3)]; a.push_back(0.25 * x); b.push_back(0.75 * x); t.push_back(x); pv.push_back(i == empty ? 0.0 : symPos(nm("pv", i), 0.0625 * vs, 16.0 * vs)); }
    Curve g = curve(a, b, pv, 1.0, pick("default", 2));
    checkCurve(pv, t, std::vector<char>(n, 0), g, "");
    checkShape(g, false);
    symx_reach("scales");
}
extern "C" void c22_sizes()
{
    const int n = pick("n", 4), m = pick("m", 4), k = pick("k", 4);
    bool threw = false;
    try { (void) FD::flowCapacityStorageCapacityCurve(V(n, 1.0), V(m, 1.0), V(k, 1.0), 1.0); } catch (const std::exception&) { threw = true; }
    symx_assert(threw == !(n == k && m == k), "inputs of different lengths are rejected, others accepted");
    symx_reach("sizes");
}
// the overload taking solutions
extern "C" void c22_solutions()
{
    Case c; c.n = 3; c.conn(0, 1, symPos("f", 0.5, 2.0)); c.conn(1, 2, 1.0); c.in["I"][0] = 1.0; c.in["P"][2] = -1.0;
    c.pv = { symPos("pv0", 0.5, 4.0), 1.0, 2.0 };
    FD::Toolbox t(c.graph()); c.assign(t);
    auto fw = t.computeInjectionDiagnostics(startSets(Flow(c, 1)));
    auto rv = t.computeProductionDiagnostics(startSets(Flow(c, -1)));
    const double frac = oneOf<double>("frac", { 0.5, 0.75, 1.0, 2.0 });
    const int dflt = pick("default", 2);
    double total = c.pv[0] + c.pv[1] + c.pv[2]; int left = 0;
    for (double v : c.pv) left += !(v > frac * total);
    symx_assume(dflt || left > 0);
    Curve g = dflt ? FD::flowCapacityStorageCapacityCurve(fw, rv, c.pv) : FD::flowCapacityStorageCapacityCurve(fw, rv, c.pv, frac);
    Curve h = FD::flowCapacityStorageCapacityCurve(fw.fd.timeOfFlight(), rv.fd.timeOfFlight(), c.pv, dflt ? 1.0 : frac);
    symx_assert(g.first.size() == h.first.size() && g.second.size() == h.second.size(), "solutions and their time-of-flight give the same curve");
    for (std::size_t k = 0; k < g.first.size(); ++k) { symx_close(g.first[k], h.first[k], 1e-12, 0, "solutions and their time-of-flight give the same curve"); symx_close(g.second[k], h.second[k], 1e-12, 0, "solutions and their time-of-flight give the same curve"); }
    symx_reach("solutions");
}

// ------------------------------------------------------------------ C23
extern "C" void c23_any()
{
    const int n = 1 + pick("n", 4);
    Curve g;
    for (int i = 0; i < n; ++i) { double x = symDbl(nm("x", i)), y = symDbl(nm("y", i)); symx_assume(x >= -8 && x <= 8 && y >= -8 && y <= 8); g.first.push_back(x); g.second.push_back(y); }
    double area = 0.0;
    for (int i = 0; i + 1 < n; ++i) area += (g.first[i + 1] - g.first[i]) * 0.5 * (g.second[i] + g.second[i + 1]);
    symx_close(FD::lorenzCoefficient(g), 2.0 * area - 1.0, 0, 1e-9, "twice the area under the curve minus one");
    symx_reach("any");
}
extern "C" void c23_range()
{
    // curve of three cells with arbitrary volumes
    const double tt[] = { 1.0, 2.5, 16.0 };
    V a, b, pv;
    const int n = 2 + pick("n", 2);
    bool equal = true; int k0 = 0;
    for (int i = 0; i < n; ++i) { const int k = pick(nm("t", i), 3); if (i == 0) k0 = k; else if (k != k0) equal = false; a.push_back(tt[k]); b.push_back(0.0); pv.push_back(symPos(nm("pv", i), 0.0625, 16.0)); }
    const double L = FD::lorenzCoefficient(FD::flowCapacityStorageCapacityCurve(a, b, pv));
    symx_le(0.0, L, 1e-9, "between zero and one"); symx_le(L, 1.0, 1e-9, "between zero and one");
    if (equal) symx_close(L, 0.0, 0, 1e-9, "zero when all travel times are equal");
    symx_reach("range");
}
extern "C" void c23_rangetimes()
{
    V a, b, pv{ 1.0, 3.0 };
    for (int i = 0; i < 2; ++i) { a.push_back(symPos(nm("t", i), 0.0625, 16.0)); b.push_back(1.0); }
    const double L = FD::lorenzCoefficient(FD::flowCapacityStorageCapacityCurve(a, b, pv));
    symx_le(0.0, L, 1e-9, "between zero and one"); symx_le(L, 1.0, 1e-9, "between zero and one");
    if (a[0] == a[1]) symx_close(L, 0.0, 0, 1e-9, "zero when all travel times are equal");
    symx_reach("rangetimes");
}
extern "C" void c23_sizes()
{
    const int n = 1 + pick("n", 5), m = 1 + pick("m", 5);
    bool t1 = false, t2 = false;
    try { (void) FD::lorenzCoefficient(Curve(V(n, 0.5), V(m, 0.5))); } catch (const std::exception&) { t1 = true; }
    symx_assert(t1 == (n != m), "differing coordinate counts are rejected, others accepted");
    symx_reach("sizes");
}
extern "C" void c23_long()
{
    // long curve with an arbitrary point somewhere
    const int n = oneOf<int>("n", { 10, 33 }), at = pick("at", 3) * (n - 1) / 2;
    Curve g;
    for (int i = 0; i < n; ++i) { g.first.push_back(i / 8.0); g.second.push_back((i * i) % 7 / 4.0); }
    const double x = symDbl("x"), y = symDbl("y"); symx_assume(x >= -8 && x <= 8 && y >= -8 && y <= 8);
    g.first[at] = x; g.second[at] = y;
    double area = 0.0;
    for (int i = 0; i + 1 < n; ++i) area += (g.first[i + 1] - g.first[i]) * 0.5 * (g.second[i] + g.second[i + 1]);
    symx_close(FD::lorenzCoefficient(g), 2.0 * area - 1.0, 0, 1e-9, "twice the area under the curve minus one");
    symx_reach("long");
}

extern "C" void c23_wide()
{
    const int n = oneOf<int>("n", { 1300, 70000 }), at = oneOf<int>("at", { 0, 300, 1299 });
    Curve g;
    for (int i = 0; i < n; ++i) { g.first.push_back(i / 1024.0); g.second.push_back((i * 3L) % 7 / 4.0); }
    const double x = symDbl("x"), y = symDbl("y"); symx_assume(x >= -8 && x <= 8 && y >= -8 && y <= 8);
    g.first[at] = x; g.second[at] = y;
    double area = 0.0;
    for (int i = 0; i + 1 < n; ++i) area += (g.first[i + 1] - g.first[i]) * 0.5 * (g.second[i] + g.second[i + 1]);
    symx_close(FD::lorenzCoefficient(g), 2.0 * area - 1.0, 1e-9, 1e-9, "twice the area under the curve minus one");
    symx_reach("wide");
}

// ------------------------------------------------------------------ C24
namespace {
void checkSweep(const Curve& g, const Curve& s)
{
    std::size_t k = 1;
    symx_assert(s.first.size() == s.second.size() && s.first.size() >= 1, "both coordinates have the same count");
    symx_assert(s.first[0] == 0.0 && s.second[0] == 0.0, "the sweep curve starts at the origin");
    for (std::size_t i = 1; i < g.first.size(); ++i) {
        const double df = g.second[i] - g.second[i - 1], ds = g.first[i] - g.first[i - 1];
        if (df == 0.0) continue;
        symx_assert(k < s.first.size(), "one point per segment with flow increment");
        symx_close(s.first[k] * df, ds, 1e-9, 1e-12, "dimensionless time is storage increment over flow increment");
        symx_close(s.second[k] * df, g.first[i] * df + (1.0 - g.second[i]) * ds, 1e-9, 1e-12, "efficiency is end-of-segment storage plus remaining flow times time");
        ++k;
    }
    symx_assert(k == s.first.size(), "one point per segment with flow increment");
}
}
extern "C" void c24_any()
{
    const int n = 1 + pick("n", 4);
    Curve g;
    for (int i = 0; i < n; ++i) { double x = symDbl(nm("x", i)); symx_assume(x >= -8 && x <= 8); double y = symDbl(nm("y", i)); symx_assume(y >= -8 && y <= 8); g.first.push_back(x); g.second.push_back(y); }
    for (int i = 1; i < n; ++i) { const double d = g.second[i] - g.second[i - 1]; symx_assume(d == 0.0 || d >= 0.0078125 || d <= -0.0078125); }
    checkSweep(g, FD::sweepEfficiency(g));
    symx_reach("any");
}
extern "C" void c24_curve()
{
    const double tt[] = { 1.0, 2.5, 16.0 };
    const int n = 2 + pick("n", 2);
    V a, b, pv;
    for (int i = 0; i < n; ++i) { a.push_back(tt[pick(nm("t", i), 3)]); b.push_back(0.0); pv.push_back(i == 2 ? 1.0 : symPos(nm("pv", i), 0.0625, 16.0)); }
    const Curve g = FD::flowCapacityStorageCapacityCurve(a, b, pv);
    const Curve s = FD::sweepEfficiency(g);
    symx_assert(s.first.size() == (std::size_t) n + 1, "one point per segment with flow increment");
    for (std::size_t k = 1; k < s.first.size(); ++k) { symx_le(s.first[k - 1], s.first[k], 1e-9, "time never decreases"); symx_le(s.second[k - 1], s.second[k], 1e-9, "efficiency never decreases"); symx_le(s.second[k], 1.0, 1e-9, "efficiency is at most one"); symx_le(0.0, s.second[k], 1e-9, "efficiency is not negative"); }
    symx_close(s.second.back(), 1.0, 0, 1e-9, "efficiency ends at one");
    symx_reach("curve");
}
extern "C" void c24_filtered()
{
    // a filtered cell gives a flat end of the curve
    V a{ 2.0, 1.0, 3.0 }, b{ 1.0, 1.0, 1.0 }, pv{ symPos("pv0", 0.5, 1.0), 1.0, symPos("pv2", 0.5, 20.0) };
    const Curve g = FD::flowCapacityStorageCapacityCurve(a, b, pv, 0.75);
    const Curve s = FD::sweepEfficiency(g);
    const bool filtered = pv[2] > 0.75 * (pv[0] + 1.0 + pv[2]);
    symx_assert(s.first.size() == (filtered ? 3u : 4u), "one point per segment with flow increment");
    for (std::size_t k = 1; k < s.first.size(); ++k) { symx_le(s.first[k - 1], s.first[k], 1e-9, "time never decreases"); symx_le(s.second[k - 1], s.second[k], 1e-9, "efficiency never decreases"); }
    symx_close(s.second.back(), 1.0, 0, 1e-9, "efficiency ends at one");
    symx_reach("filtered");
}
extern "C" void c24_sizes()
{
    const int n = 1 + pick("n", 5), m = 1 + pick("m", 5);
    bool t2 = false;
    try { (void) FD::sweepEfficiency(Curve(V(n, 0.5), V(m, 0.5))); } catch (const std::exception&) { t2 = true; }
    symx_assert(t2 == (n != m), "differing coordinate counts are rejected, others accepted");
    symx_reach("sizes");
}

extern "C" void c24_long()
{
    // long curve with flat pieces and a point moved anywhere
    const int n = oneOf<int>("n", { 12, 40 }), at = 1 + pick("at", 4) * (n - 2) / 3, flat = 2 + pick("flat", 3);
    Curve g; double y = 0.0;
    for (int i = 0; i < n; ++i) { g.first.push_back(i / 8.0); if (i && i % flat) y += 1.0 / 16; g.second.push_back(y); }
    const double x = symDbl("x"), z = symDbl("y"); symx_assume(x >= -8 && x <= 8 && z >= -8 && z <= 8);
    g.first[at] = x; g.second[at] = z;
    for (int i = 1; i < n; ++i) { const double d = g.second[i] - g.second[i - 1]; symx_assume(d == 0.0 || d >= 0.0078125 || d <= -0.0078125); }
    checkSweep(g, FD::sweepEfficiency(g));
    symx_reach("long");
}
extern "C" void c24_wide()
{
    const int n = oneOf<int>("n", { 1300, 70000 }), at = oneOf<int>("at", { 1, 700, 1299 }), flat = 2 + pick("flat", 2);
    Curve g; double y = 0.0;
    for (int i = 0; i < n; ++i) { g.first.push_back(i / 65536.0); if (i && i % flat) y += 1.0 / 131072; g.second.push_back(y); }
    const double x = symDbl("x"); symx_assume(x >= -1 && x <= 1);
    g.first[at] = x;
    const Curve s = FD::sweepEfficiency(g);
    int k = 1; bool ok = s.first[0] == 0.0 && s.second[0] == 0.0;
    for (int i = 1; i < n && ok; ++i) {
        const double fd = g.second[i] - g.second[i - 1], sd = g.first[i] - g.first[i - 1];
        if (fd == 0.0) continue;
        if (k >= (int) s.first.size() || k >= (int) s.second.size()) { ok = false; break; }
        const double t = sd / fd, e = g.first[i] + (1.0 - g.second[i]) * t;
        if (i == at || i == at + 1) { symx_close(s.first[k], t, 1e-9, 1e-9, "time is the slope of the segment"); symx_close(s.second[k], e, 1e-9, 1e-9, "efficiency is the tangent's value"); }
        else ok = std::abs(s.first[k] - t) <= 1e-9 * std::abs(t) + 1e-12 && std::abs(s.second[k] - e) <= 1e-9 * std::abs(e) + 1e-9;
        ++k;
    }
    symx_assert(ok && k == (int) s.first.size() && k == (int) s.second.size(), "one point per segment with flow increment, on its tangent");
    symx_reach("wide");
}
// tiny flow increments are increments
extern "C" void c24_tiny()
{
    Curve g; g.first = { 0.0, symPos("x1", 0.0, 1.0), 1.0 };
    const double d = symPos("d", 1e-15, 1.0);
    g.second = { 0.0, d, 1.0 };
    symx_assume(d == 1.0 || d <= 0.9999);
    checkSweep(g, FD::sweepEfficiency(g));
    Curve h; h.first = g.first; h.second = { 0.0, 0.0, d };
    checkSweep(h, FD::sweepEfficiency(h));
    symx_reach("tiny");
}

// ------------------------------------------------------------------ C25, C26: arbitrary concentration fields
namespace {
Field symField(const char* p, int n, double lo, double hi)
{
    Field f; for (int i = 0; i < n; ++i) if (pick(std::string("has") + p + std::to_string(i), 2)) f[i] = symPos(std::string(p) + std::to_string(i), lo, hi);
    return f;
}
FD::Solution sol(const char* id, const Field& c, const char* id2, const Field& c2)
{
    FD::Solution s;
    s.assign(FD::CellSetID(id), FD::Solution::TracerConcentration{ c });
    s.assign(FD::CellSetID(id2), FD::Solution::TracerConcentration{ c2 });
    return s;
}
}
extern "C" void c25_any()
{
    const int n = 3;
    const Field ci = symField("i", n, 0.0, 1.0), cp = symField("p", n, 0.0, 1.0), other{ { 0, 0.5 }, { 2, 0.25 } };
    V pv; for (int i = 0; i < n; ++i) pv.push_back(symPos(nm("pv", i), 0.0, 100.0));
    FD::Toolbox::Forward fw{ sol("INJECTOR-EAST-001", ci, "INJECTOR-EAST-002", other) };
    FD::Toolbox::Reverse rv{ sol("PRODUCER-WEST-001", cp, "PRODUCER-WEST-002", other) };
    double want = 0.0;
    for (auto& x : ci) { auto q = cp.find(x.first); if (q != cp.end()) want += pv[x.first] * x.second * q->second; }
    const double got = FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("INJECTOR-EAST-001"), FD::CellSetID("PRODUCER-WEST-001"));
    symx_close(got, want, 1e-9, 0, "sum over cells of pore volume times both concentrations");
    double wantQ = 0.0;
    for (auto& x : ci) { auto q = other.find(x.first); if (q != other.end()) wantQ += pv[x.first] * x.second * q->second; }
    symx_close(FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("INJECTOR-EAST-001"), FD::CellSetID("PRODUCER-WEST-002")), wantQ, 1e-9, 0, "the named wells are used");
    symx_assert(FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("INJECTOR-EAST-00"), FD::CellSetID("PRODUCER-WEST-001")) == 0.0, "zero for unknown wells");
    symx_assert(FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("INJECTOR-EAST-001"), FD::CellSetID("INJECTOR-EAST-00")) == 0.0, "zero for unknown wells");
    symx_assert(FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("PRODUCER-WEST-001"), FD::CellSetID("INJECTOR-EAST-001")) == 0.0, "zero for unknown wells");
    symx_reach("any");
}
// through the toolbox: all pairs together
extern "C" void c25_total()
{
    Case c; c.n = 3;
    c.conn(0, 1, symPos("f01", 0.25, 4.0)); c.conn(1, 2, symPos("f12", 0.25, 4.0));
    c.in["I"][0] = 1.0; if (pick("second", 2)) c.in["J"][1] = 0.5;
    c.in["P"][2] = -1.0; if (pick("secondP", 2)) c.in["Q"][1] = -0.5;
    for (int i = 0; i < 3; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, 4.0));
    FD::Toolbox t(c.graph()); c.assign(t);
    const auto si = startSets(Flow(c, 1)), sp = startSets(Flow(c, -1));
    auto fw = t.computeInjectionDiagnostics(si);
    auto rv = t.computeProductionDiagnostics(sp);
    double sum = 0.0;
    for (auto& a : si) for (auto& b : sp) { const double v = FD::injectorProducerPairVolume(fw, rv, c.pv, a.id(), b.id()); symx_le(0.0, v, 1e-12, "pair volumes are not negative"); sum += v; }
    symx_close(sum, c.pv[0] + c.pv[1] + c.pv[2], 1e-9, 1e-9, "pair volumes add up to the total when every cell is swept and drained");
    symx_reach("total");
}
extern "C" void c25_partial()
{
    // a cell beside the flow and one that is not drained
    Case c; c.n = 4;
    c.conn(0, 1, 1.0); c.conn(1, 2, symFlux("f12", 0.25, 4.0)); c.conn(1, 3, symFlux("f13", 0.25, 4.0));
    c.in["I"][0] = 1.0; c.in["P"][2] = -1.0;
    for (int i = 0; i < 4; ++i) c.pv.push_back(symPos(nm("pv", i), 0.0, 4.0));
    FD::Toolbox t(c.graph()); c.assign(t);
    const Flow ff(c, 1), fr(c, -1);
    auto fw = t.computeInjectionDiagnostics(startSets(ff));
    auto rv = t.computeProductionDiagnostics(startSets(fr));
    const double v = FD::injectorProducerPairVolume(fw, rv, c.pv, FD::CellSetID("I"), FD::CellSetID("P"));
    const auto a = ff.reachedAll(), b = fr.reachedAll();
    double most = 0.0; for (int i = 0; i < 4; ++i) if (a[i] && b[i]) most += c.pv[i];
    symx_le(v, most, 1e-9, "no more than the volume both swept and drained");
    symx_le(0.0, v, 1e-12, "pair volumes are not negative");
    bool any = false; for (int i = 0; i < 4; ++i) any = any || (a[i] && b[i]);
    if (!any) symx_assert(v == 0.0, "zero for disjoint regions");
    symx_reach("partial");
}

// long fields in several interleavings
namespace {
Field longField(int kind, int n)
{
    Field f; for (int i = 0; i < n; ++i) if (kind == 0 || (kind == 1 && i % 2 == 0) || (kind == 2 && i % 3 != 1) || (kind == 3 && i >= n / 2) || (kind == 4 && i < n / 3)) f[i] = 1.0 / (1 + i % 8);
    return f;
}
}
extern "C" void c25_long()
{
    const int n = oneOf<int>("n", { 30, 300, 70000 });
    Field ci = longField(pick("fieldI", n > 300 ? 3 : 5), n), cp = longField(pick("fieldP", n > 300 ? 2 : 5), n);
    if (pick("tiny", 2)) { ci[0] = symPos("ci", 1e-15, 1.0); cp[0] = symPos("cp", 1e-15, 1.0); } else { ci[n - 1] = symPos("ci", 0.0, 1.0); cp[n / 2] = symPos("cp", 0.0, 1.0); }
    V pv; for (int i = 0; i < n; ++i) pv.push_back(1e3 * (i % 5));
    pv[0] = symPos("pv", 0.0, 1e9);
    FD::Toolbox::Forward fw{ sol("I", ci, "J", cp) };
    FD::Toolbox::Reverse rv{ sol("P", cp, "Q", ci) };
    double want = 0.0;
    for (auto& x : ci) { auto q = cp.find(x.first); if (q != cp.end()) want += pv[x.first] * x.second * q->second; }
    symx_close(FD::injectorProducerPairVolume(fw, rv, pv, FD::CellSetID("I"), FD::CellSetID("P")), want, 1e-9, 0, "sum over cells of pore volume times both concentrations");
    symx_reach("long");
}
extern "C" void c26_long()
{
    const int n = oneOf<int>("n", { 30, 300, 70000 });
    const Field ci = longField(pick("fieldI", n > 300 ? 2 : 5), n), cp = longField(pick("fieldP", n > 300 ? 2 : 5), n), none;
    Field qi = longField(n > 300 ? 2 : pick("rates", 3), n), qp = qi;
    const double s = n > 300 ? 1.0 : oneOf<double>("scale", { 1e-15, 1.0, 1e6 });
    for (auto& q : qi) q.second *= q.first % 7 == 3 ? -s : s;
    for (auto& q : qp) q.second *= q.first % 5 == 1 ? s : -s;
    qi[n - 2] = symPos("qi", -s, s); qp[n / 2] = symPos("qp", -s, s);
    FD::Toolbox::Forward fw{ sol("I", ci, "J", none) };
    FD::Toolbox::Reverse rv{ sol("P", cp, "Q", none) };
    std::map<FD::CellSetID, FD::CellSetValues> in; in[FD::CellSetID("I")] = qi; in[FD::CellSetID("P")] = qp;
    auto r = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID("I"), FD::CellSetID("P"), in);
    double wi = 0.0, wp = 0.0;
    for (auto& q : qi) { auto c = cp.find(q.first); if (c != cp.end() && q.second > 0.0) wi += q.second * c->second; }
    for (auto& q : qp) { auto c = ci.find(q.first); if (c != ci.end() && q.second < 0.0) wp += q.second * c->second; }
    symx_close(r.first, wi, 1e-9, 0, "injection rates weighted by producer concentration");
    symx_close(r.second, wp, 1e-9, 0, "production rates weighted by injector concentration");
    symx_reach("long");
}

extern "C" void c26_any()
{
    const int n = 2;
    const Field ci = symField("i", n, 0.0, 1.0), cp = symField("p", n, 0.0, 1.0), other{ { 0, 0.5 } };
    FD::Toolbox::Forward fw{ sol("", ci, "J", other) };
    FD::Toolbox::Reverse rv{ sol("p", cp, "P", other) };
    std::map<FD::CellSetID, FD::CellSetValues> in;
    Field qi, qp;
    for (int i = 0; i < n; ++i) { qi[i] = symDbl(nm("qi", i)); symx_assume(qi[i] >= -64 && qi[i] <= 64); qp[i] = symDbl(nm("qp", i)); symx_assume(qp[i] >= -64 && qp[i] <= 64); }
    const int haveI = pick("haveI", 2), haveP = pick("haveP", 2);
    if (haveI) in[FD::CellSetID("")] = qi;
    if (haveP) in[FD::CellSetID("p")] = qp;
    in[FD::CellSetID(" ")] = Field{ { 0, 5.0 } };
    bool threw = false; std::pair<double, double> r;
    try { r = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID(""), FD::CellSetID("p"), in); } catch (const std::exception&) { threw = true; }
    symx_assert(threw == !(haveI && haveP), "a well missing from the inflow data is rejected, others accepted");
    if (threw) { symx_reach("rejected"); return; }
    double wi = 0.0, wp = 0.0;
    for (auto& q : qi) { auto c = cp.find(q.first); if (c != cp.end() && q.second > 0.0) wi += q.second * c->second; }
    for (auto& q : qp) { auto c = ci.find(q.first); if (c != ci.end() && q.second < 0.0) wp += q.second * c->second; }
    symx_close(r.first, wi, 1e-9, 0, "injection rates weighted by producer concentration");
    symx_close(r.second, wp, 1e-9, 0, "production rates weighted by injector concentration");
    symx_assert(r.first >= 0.0 && r.second <= 0.0, "the first flux is not negative, the second not positive");
    symx_reach("any");
}
extern "C" void c26_sparse()
{
    // rates and concentrations on different cells
    const int n = 3;
    const Field ci = symField("i", n, 0.0, 1.0), other;
    Field cp; cp[1] = symPos("p1", 0.0, 1.0);
    Field qi = symField("qi", n, -8.0, 8.0), qp{ { 2, symPos("qp", -8.0, 8.0) } };
    FD::Toolbox::Forward fw{ sol("WELL-NUMBER-ONE-A", ci, "WELL-NUMBER-ONE", other) };
    FD::Toolbox::Reverse rv{ sol("WELL-NUMBER-ONE-B", cp, "WELL-NUMBER-ONE-", other) };
    std::map<FD::CellSetID, FD::CellSetValues> in; in[FD::CellSetID("WELL-NUMBER-ONE-A")] = qi; in[FD::CellSetID("WELL-NUMBER-ONE-B")] = qp;
    auto r = FD::injectorProducerPairFlux(fw, rv, FD::CellSetID("WELL-NUMBER-ONE-A"), FD::CellSetID("WELL-NUMBER-ONE-B"), in);
    double wi = 0.0, wp = 0.0;
    for (auto& q : qi) { auto c = cp.find(q.first); if (c != cp.end() && q.second > 0.0) wi += q.second * c->second; }
    for (auto& q : qp) { auto c = ci.find(q.first); if (c != ci.end() && q.second < 0.0) wp += q.second * c->second; }
    symx_close(r.first, wi, 1e-9, 0, "injection rates weighted by producer concentration");
    symx_close(r.second, wp, 1e-9, 0, "production rates weighted by injector concentration");
    symx_reach("sparse");
}
// a well paired with itself (crossflow)
namespace {
void samePair(int what)
{
    const FD::CellSetID w("W");
    FD::Solution a, b; Field ci, cp, q; V pv;
    for (int i = 0; i < 3; ++i) { ci[i] = symPos(nm("ci", i), 0.0, 1.0); cp[i] = symPos(nm("cp", i), 0.0, 1.0); pv.push_back(symPos(nm("pv", i), 0.0, 10.0)); }
    for (int i = 0; i < 2; ++i) { q[i] = symDbl(nm("q", i)); symx_assume(q[i] >= -64 && q[i] <= 64); }
    a.assign(w, FD::Solution::TracerConcentration{ FD::CellSetValues(ci.begin(), ci.end()) }); b.assign(w, FD::Solution::TracerConcentration{ FD::CellSetValues(cp.begin(), cp.end()) });
    const FD::Toolbox::Forward fw{ a }; const FD::Toolbox::Reverse rv{ b };
    if (what == 25) symx_close(FD::injectorProducerPairVolume(fw, rv, pv, w, w), pv[0] * ci[0] * cp[0] + pv[1] * ci[1] * cp[1] + pv[2] * ci[2] * cp[2], 1e-9, 0, "volume of a well paired with itself");
    else {
        std::map<FD::CellSetID, FD::CellSetValues> in; in[w] = FD::CellSetValues(q.begin(), q.end());
        const auto r = FD::injectorProducerPairFlux(fw, rv, w, w, in);
        double x = 0.0, y = 0.0; for (auto& p : q) { if (p.second > 0.0) x += p.second * cp[p.first]; else y += p.second * ci[p.first]; }
        symx_close(r.first, x, 1e-9, 1e-12, "injection flux of a well paired with itself"); symx_close(r.second, y, 1e-9, 1e-12, "production flux of a well paired with itself");
    }
    symx_reach("same");
}
}
extern "C" void c25_same() { samePair(25); }
extern "C" void c26_same() { samePair(26); }
// balanced flow through the toolbox: 0 -> 1 -> 2 and 0 -> 2, sources and sinks balance every cell
extern "C" void c26_balance()
{
    Case c; c.n = 3;
    const double f01 = symPos("f01", 0.25, 4.0), f12 = symPos("f12", 0.25, 4.0), f02 = pick("direct", 2) ? symPos("f02", 0.25, 4.0) : 0.0;
    c.conn(0, 1, f01); c.conn(1, 2, f12); c.conn(0, 2, f02);
    c.in["I"][0] = f01 + f02;
    c.in["P"][2] = -(f12 + f02);
    const double d = f12 - f01;
    if (d > 0.0) { symx_assume(d >= 0.0625); c.in["J"][1] = d; } else if (d < 0.0) { symx_assume(d <= -0.0625); c.in["Q"][1] = d; }
    c.pv = { 1.0, 2.0, 0.5 };
    FD::Toolbox t(c.graph()); c.assign(t);
    const auto si = startSets(Flow(c, 1)), sp = startSets(Flow(c, -1));
    auto fw = t.computeInjectionDiagnostics(si);
    auto rv = t.computeProductionDiagnostics(sp);
    const auto in = c.inflow();
    for (auto& a : si) for (auto& b : sp) {
        auto r = FD::injectorProducerPairFlux(fw, rv, a.id(), b.id(), in);
        symx_close(r.first, -r.second, 1e-9, 1e-12, "the two fluxes of a pair are equal and opposite");
        symx_le(0.0, r.first, 1e-12, "the injection flux is not negative");
    }
    symx_reach("balance");
}
ENTRIES(E(c22_volumes), E(c22_times), E(c22_two), E(c22_filter), E(c22_fraction), E(c22_many), E(c22_sizes), E(c22_solutions), E(c23_any), E(c23_range), E(c23_rangetimes), E(c23_sizes), E(c23_long),
        E(c24_any), E(c24_curve), E(c24_filtered), E(c24_sizes), E(c25_any), E(c25_total), E(c25_partial), E(c26_any), E(c26_sparse), E(c26_balance), E(c25_same), E(c26_same),
        E(c22_scales), E(c22_wide), E(c23_wide), E(c24_wide), E(c24_long), E(c24_tiny), E(c25_long), E(c26_long))
