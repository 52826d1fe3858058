// A flow case, the code under test run on it, and independent statements of what the result must satisfy.
#pragma once
#include "common.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include <utility>

namespace FD = Opm::FlowDiagnostics;
static const double MAXTOF = 200.0 * 365.0 * 24.0 * 3600.0;

typedef std::map<int, double> Field;

// How wells are called: as in the case, with a long common beginning, with one of them called nothing at all, or differing in case only.
static int nameScheme = 0;
inline std::string wellName(const std::string& w)
{
    if (nameScheme == 1) return "PLATFORM-NORTH-EAST-" + w;
    if (nameScheme == 2) return w == "A" ? "" : w == "B" ? " " : w;
    if (nameScheme == 3) return w == "A" ? "well" : w == "B" ? "WELL" : w == "C" ? "WELL2" : w == "P" ? "Well" : w;
    return w;
}
inline FD::CellSetID wellId(const std::string& w) { return FD::CellSetID(wellName(w)); }

struct Case {
    int n = 0;
    std::vector<int> nb;                              // two cells per connection
    std::vector<std::vector<double>> fl;              // [connection][phase]
    std::vector<double> pv;
    std::map<std::string, Field> in;                  // inflow per well

    int edges() const { return (int) nb.size() / 2; }
    void conn(int i, int j, double f) { nb.push_back(i); nb.push_back(j); fl.push_back({ f }); }
    int phases() const { return fl.empty() ? 1 : (int) fl[0].size(); }
    FD::ConnectionValues flux() const
    {
        typedef FD::ConnectionValues CV;
        CV v(CV::NumConnections{ (std::size_t) edges() }, CV::NumPhases{ (std::size_t) phases() });
        for (int k = 0; k < edges(); ++k) for (int p = 0; p < phases(); ++p) v(CV::ConnID{ (std::size_t) k }, CV::PhaseID{ (std::size_t) p }) = fl[k][p];
        return v;
    }
    std::map<FD::CellSetID, FD::CellSetValues> inflow() const
    {
        std::map<FD::CellSetID, FD::CellSetValues> m;
        for (auto& w : in) m.emplace(wellId(w.first), w.second);
        return m;
    }
    FD::ConnectivityGraph graph() const { return FD::ConnectivityGraph(n, nb); }
    void assign(FD::Toolbox& t) const { t.assignPoreVolume(pv); t.assignConnectionFlux(flux()); t.assignInflowFlux(inflow()); }
};

// The flow seen by injection (sign +1) or production (sign -1) diagnostics.
struct Flow {
    int n = 0;
    std::vector<std::vector<std::pair<int, double>>> up;      // per cell: upstream cell and flux
    std::vector<double> src, F;                               // sources, total inflow
    std::vector<char> hasSrc;
    std::map<std::string, Field> well;                        // sources per well (of this sign only)
    bool acyclic = true;
    std::vector<int> order;                                   // topological, if acyclic

    Flow(const Case& c, int sign) : n(c.n), up(c.n), src(c.n, 0.0), F(c.n, 0.0), hasSrc(c.n, 0)
    {
        for (int k = 0; k < c.edges(); ++k) {
            double f = 0.0;
            for (double x : c.fl[k]) f += x;
            const int a = c.nb[2 * k], b = c.nb[2 * k + 1];
            int from = -1, to = -1; double m = 0;
            if (f > 0.0) { from = a; to = b; m = f; } else if (f < 0.0) { from = b; to = a; m = -f; } else continue;
            if (sign < 0) { const int t = from; from = to; to = t; }
            bool seen = false;
            for (auto& u : up[to]) if (u.first == from) { u.second += m; seen = true; }
            if (!seen) up[to].emplace_back(from, m);
            F[to] += m;
        }
        for (auto& w : c.in) for (auto& s : w.second) {
            const double v = s.second;
            double m = 0;
            if (sign > 0 ? v > 0.0 : v < 0.0) m = sign > 0 ? v : -v; else continue;
            well[w.first][s.first] = m; src[s.first] += m; hasSrc[s.first] = 1; F[s.first] += m;
        }
        std::vector<char> done(n, 0);
        for (std::size_t before = 1; before != order.size(); ) { before = order.size(); for (int i = 0; i < n; ++i) if (!done[i]) {
            bool ok = true; for (auto& u : up[i]) if (!done[u.first]) ok = false;
            if (ok) { done[i] = 1; order.push_back(i); }
        } }
        acyclic = (int) order.size() == n;
    }
    std::vector<char> reached(const std::set<int>& from) const
    {
        std::vector<char> r(n, 0);
        for (int c : from) r[c] = 1;
        for (bool more = true; more; ) { more = false; for (int i = 0; i < n; ++i) if (!r[i]) for (auto& u : up[i]) if (r[u.first]) { r[i] = 1; more = true; } }
        return r;
    }
    std::vector<char> reachedAll() const { std::set<int> s; for (int i = 0; i < n; ++i) if (hasSrc[i]) s.insert(i); return reached(s); }
    std::vector<char> reachedWell(const std::string& w) const { std::set<int> s; for (auto& p : well.at(w)) s.insert(p.first); return reached(s); }
    bool limited(const Case& c, int i) const { return F[i] * MAXTOF < c.pv[i]; }
    // Filling times within a relative 1e-9 of the limit are left out: there the verdict depends on rounding.
    void clearOfLimit(const Case& c) const
    {
        for (int i = 0; i < n; ++i) if (hasSrc[i] || !up[i].empty())
            symx_assume((int) (F[i] * (MAXTOF * (1 - 1e-9)) > c.pv[i]) | (int) (F[i] * (MAXTOF * (1 + 1e-9)) < c.pv[i]));
    }
};

struct Result {
    std::vector<double> tof; std::map<std::string, Field> conc, ltof;
    std::vector<std::string> ids;
    void from(const FD::Solution& s, const std::vector<std::string>& want)
    {
        tof = s.timeOfFlight(); ids.clear(); conc.clear(); ltof.clear();
        for (auto& id : s.startPoints()) ids.push_back(id.to_string());
        std::sort(ids.begin(), ids.end());
        for (auto& w : want) { conc[w] = s.concentration(wellId(w)); ltof[w] = s.timeOfFlight(wellId(w)); }
    }
    void observe() const
    {
        for (double t : tof) symx_observe("tof", t);
        for (auto& w : conc) for (auto& p : w.second) { symx_observe_int("cell", p.first); symx_observe("conc", p.second); }
        for (auto& w : ltof) for (auto& p : w.second) symx_observe("ltof", p.second);
    }
};

// start sets: the wells with sources of the right sign, each with its own cells
inline std::vector<FD::CellSet> startSets(const Flow& f)
{
    std::vector<FD::CellSet> s;
    for (auto& w : f.well) { std::vector<int> c; for (auto& p : w.second) c.push_back(p.first); s.emplace_back(wellId(w.first), c); }
    return s;
}
inline std::vector<std::string> wellNames(const Flow& f) { std::vector<std::string> r; for (auto& w : f.well) r.push_back(w.first); return r; }

inline FD::Solution compute(FD::Toolbox& t, const std::vector<FD::CellSet>& s, int sign)
{
    return sign > 0 ? t.computeInjectionDiagnostics(s).fd : t.computeProductionDiagnostics(s).fd;
}
inline Result run(const Case& c, const Flow& f, int sign)
{
    FD::Toolbox t(c.graph());
    c.assign(t);
    Result r; r.from(compute(t, startSets(f), sign), wellNames(f));
    return r;
}

enum { GLOBAL = 1, CONC = 2, LOCAL = 4, RANGE = 8, SHARE = 16 };

// Concentrations: support, range, balance.
inline void checkConc(const Flow& f, const Result& r, double rtol, double atol)
{
    symx_assert(r.ids.size() == f.well.size(), "the solution has the requested wells");
    for (auto& w : f.well) {
        const auto reach = f.reachedWell(w.first);
        const Field& c = r.conc.at(w.first);
        std::size_t cnt = 0; for (int i = 0; i < f.n; ++i) cnt += reach[i] != 0;
        symx_assert(c.size() == cnt, "concentration has entries for exactly the cells the well reaches");
        for (int i = 0; i < f.n; ++i) symx_assert((c.count(i) == 1) == (reach[i] != 0), "concentration has entries for exactly the cells the well reaches");
        for (auto& p : c) {
            const int i = p.first;
            symx_assert(p.second > 0.0, "concentration is positive");
            symx_le(p.second, 1.0, 1e-9, "concentration is at most one");
            double rhs = 0.0;
            for (auto& u : f.up[i]) { auto q = c.find(u.first); if (q != c.end()) rhs += q->second * u.second; }
            auto s = w.second.find(i); if (s != w.second.end()) rhs += s->second;
            symx_close(p.second * f.F[i], rhs, rtol, atol, "concentration times total inflow equals what flows in plus the well's source");
        }
    }
}

// Per-well time of flight in balance form, where no 200-year limit interferes.
inline void checkLocal(const Case& k, const Flow& f, const Result& r, double rtol, double atol)
{
    for (auto& w : f.well) {
        const Field& c = r.conc.at(w.first); const Field& t = r.ltof.at(w.first);
        symx_assert(c.size() == t.size(), "time-of-flight has entries for the cells of the concentration");
        for (auto& p : c) symx_assert(t.count(p.first) == 1, "time-of-flight has entries for the cells of the concentration");
        for (auto& p : c) {
            const int i = p.first;
            const double ti = t.at(i);
            if (f.limited(k, i)) { symx_assert(ti == MAXTOF, "a cell that takes over 200 years to fill has the limit"); continue; }
            double rhs = k.pv[i] * p.second;
            bool upl = false;
            for (auto& u : f.up[i]) { auto q = c.find(u.first); if (q == c.end()) continue; const double tu = t.at(u.first); if (tu >= MAXTOF && !f.limited(k, u.first)) { upl = true; break; } rhs += u.second * q->second * tu; }
            if (upl) continue;
            if (ti < MAXTOF) symx_close(ti * (p.second * f.F[i]), rhs, rtol, atol, "time-of-flight balance of the well");
            else symx_le((1 - 1e-6) * MAXTOF * (p.second * f.F[i]), rhs, 0, "the limit is reported only when the balance exceeds it");
        }
    }
}

// Global time of flight, given the source fractions g (zero where unreached).
inline void checkGlobal(const Case& k, const Flow& f, const Result& r, const std::vector<double>& g, double rtol, double atol)
{
    symx_assert((int) r.tof.size() == f.n, "one time-of-flight value per cell");
    const auto reach = f.reachedAll();
    for (int i = 0; i < f.n; ++i) {
        const double ti = r.tof[i];
        if (!reach[i]) { symx_assert(ti == MAXTOF, "a cell that no source reaches has the limit"); continue; }
        if (f.limited(k, i)) { symx_assert(ti == MAXTOF, "a cell that takes over 200 years to fill has the limit"); continue; }
        double rhs = k.pv[i] * g[i];
        bool upl = false;
        for (auto& u : f.up[i]) { if (!reach[u.first]) continue; const double tu = r.tof[u.first]; if (tu >= MAXTOF && !f.limited(k, u.first)) { upl = true; break; } rhs += u.second * g[u.first] * tu; }
        if (upl) continue;
        if (ti < MAXTOF) symx_close(ti * (g[i] * f.F[i]), rhs, rtol, atol, "global time-of-flight balance");
        else symx_le((1 - 1e-6) * MAXTOF * (g[i] * f.F[i]), rhs, 0, "the limit is reported only when the balance exceeds it");
    }
}
// source fractions, cell by cell along the flow
inline std::vector<double> fractions(const Flow& f, const Field* only)
{
    std::vector<double> g(f.n, 0.0);
    std::set<int> from;
    if (only) { for (auto& p : *only) from.insert(p.first); } else for (int i = 0; i < f.n; ++i) if (f.hasSrc[i]) from.insert(i);
    const auto reach = f.reached(from);
    for (int i : f.order) if (reach[i]) {
        double num = 0.0;
        for (auto& u : f.up[i]) if (reach[u.first]) num += g[u.first] * u.second;
        if (!only) { if (f.hasSrc[i]) num += f.src[i]; } else { auto q = only->find(i); if (q != only->end()) num += q->second; }
        g[i] = num / f.F[i];
    }
    return g;
}

inline void checkRange(const Result& r)
{
    for (double t : r.tof) { symx_assert(t >= 0.0, "time-of-flight is not negative"); symx_assert(t <= MAXTOF, "time-of-flight is at most 200 years"); }
    for (auto& w : r.ltof) for (auto& p : w.second) { symx_assert(p.second >= 0.0, "time-of-flight is not negative"); symx_assert(p.second <= MAXTOF, "time-of-flight is at most 200 years"); }
}

// Exact values, including the limit: for concrete fluxes, where everything is linear in the pore volumes.
inline std::vector<double> exactTof(const Case& k, const Flow& f, const std::vector<double>& g)
{
    std::vector<double> R(f.n, MAXTOF);
    for (int i : f.order) {
        if (g[i] == 0.0 || f.limited(k, i)) continue;
        double num = k.pv[i] * g[i];
        for (auto& u : f.up[i]) if (g[u.first] != 0.0) num += (u.second * g[u.first]) * R[u.first];
        R[i] = num / (f.F[i] * g[i]);
    }
    return R;
}

// A computed value against its exact one, which may lie beyond the limit.
inline void limitClose(double got, double R, const char* label)
{
    if (R >= MAXTOF * (1 + 1e-9)) symx_assert(got == MAXTOF, "longer times are reported as the limit");
    else symx_close(got, R < MAXTOF ? R : MAXTOF, 2e-9, 1e-6, label);
}

inline double symFlux(const std::string& n, double lo, double hi)        // zero or of magnitude lo..hi, any sign
{
    double f = symDbl(n);
    if (f > 0.0) symx_assume(f >= lo && f <= hi); else if (f < 0.0) symx_assume(f <= -lo && f >= -hi);
    return f;
}
inline double symPos(const std::string& n, double lo, double hi) { double f = symDbl(n); symx_assume(f >= lo && f <= hi); return f; }

// Larger flows with concrete fluxes: chains with bypasses and grids, numbered up, down or scrambled.
inline int renumber(int i, int n, int how) { return how == 0 ? i : how == 1 ? n - 1 - i : (int) ((i * 7919L + 3) % n); }
inline Case bigChain(int n, int how, int sign)
{
    Case c; c.n = n;
    for (int i = 0; i + 1 < n; ++i) {
        const int a = renumber(i, n, how), b = renumber(i + 1, n, how);
        const double f = sign * (1.0 + 0.125 * (i % 5));
        if (i % 3 == 1) c.conn(b, a, -f); else c.conn(a, b, f);
        if (i % 4 == 2 && i + 3 < n) c.conn(renumber(i + 3, n, how), a, -sign * 0.5);
        if (i % 6 == 5) c.conn(a, b, sign * 0.25);                              // parallel connection
    }
    c.in["A"][renumber(0, n, how)] = sign * 2.0;
    c.in["B"][renumber(n / 2, n, how)] = sign * 1.5; c.in["B"][renumber(1, n, how)] = sign * 0.5;
    c.in["P"][renumber(n - 1, n, how)] = -sign * 3.0;
    if (n > 40) {
        // a well with many cells, a cell fed by many others, one that feeds many
        for (int i = 2; i < n; i += 3) c.in["M"][renumber(i, n, how)] = i % 4 == 1 ? -sign * 0.25 : sign * 0.125;
        for (int i = 4; i < n - 6; i += 2) c.conn(renumber(i, n, how), renumber(n - 2, n, how), sign * 0.0625);
        for (int i = 7; i < n; i += 5) c.conn(renumber(i, n, how), renumber(1, n, how), -sign * 0.0625);
    }
    return c;
}
// nx by ny grid, flow to the right and mostly upwards; the last column is cut off from all sources in part
inline Case bigGrid(int nx, int ny, int how, int sign, int wells)
{
    Case c; const int n = c.n = nx * ny;
    auto id = [=](int x, int y) { return renumber(y * nx + x, n, how); };
    for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
        const int k = x + 2 * y;
        if (x + 1 < nx) { const double f = sign * (0.5 + 0.25 * (k % 4)); if (k % 2) c.conn(id(x, y), id(x + 1, y), f); else c.conn(id(x + 1, y), id(x, y), -f); }
        if (y + 1 < ny && k % 5 != 3) { const double f = sign * (0.25 + 0.5 * (k % 3)); if (k % 3) c.conn(id(x, y), id(x, y + 1), f); else c.conn(id(x, y + 1), id(x, y), -f); }
    }
    for (int w = 0; w < wells; ++w) {
        const std::string name = "W" + std::to_string(w);
        c.in[name][id((w * 2) % nx, (w * 3) % ny)] = sign * (1.0 + w);
        if (w % 2) c.in[name][id((w * 3 + 1) % nx, (w + 1) % ny)] = sign * 0.75;
        if (w % 3 == 2) c.in[name][id(0, 0)] = sign * 0.25;
    }
    c.in["Z"][id(nx - 1, ny - 1)] = -sign * 2.0;
    return c;
}
