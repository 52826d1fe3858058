// C20, C21 and the diagnostics part of C04: call histories, acceptance of input, failing allocations.
#include "flowcase.hpp"
#include <algorithm>
#include <memory>

#if DEEP
#define LONGS 256
#define LONGLEN 300
#else
#define LONGS 48
#define LONGLEN 60
#endif
#ifndef HL
#define HL 4
#endif

namespace {
struct Outcome { bool ok = false; Result r; };
void sameField(const Field& a, const Field& b, const char* what)
{
    symx_assert(a.size() == b.size(), what);
    auto q = b.begin();
    for (auto& p : a) { symx_assert(p.first == q->first, what); symx_close(p.second, q->second, 1e-12, 0, what); ++q; }
}
void sameResult(const Result& a, const Result& b, const char* what)
{
    symx_assert(a.tof.size() == b.tof.size() && a.conc.size() == b.conc.size() && a.ids == b.ids, what);
    for (std::size_t i = 0; i < a.tof.size(); ++i) symx_close(a.tof[i], b.tof[i], 1e-12, 0, what);
    for (auto& w : a.conc) sameField(w.second, b.conc.at(w.first), what);
    for (auto& w : a.ltof) sameField(w.second, b.ltof.at(w.first), what);
}

// the latest inputs
struct Latest {
    Case c; bool pv = false, flux = false;
    Latest() { c.n = 3; for (int k : { 0, 1, 1, 2, 2, 0 }) c.nb.push_back(k); c.fl.assign(3, { 0.0 }); }
};
void setFlux(Case& c, int variant)
{
    switch (variant) {
    case 0: c.fl = { { 2.0 }, { 1.0 }, { 0.0 } }; break;                                        // 0 -> 1 -> 2
    case 1: c.fl = { { -1.0 }, { 0.0 }, { -0.5 } }; break;                                      // 1 -> 0 -> 2
    case 2: c.fl = { { -0.25, 1.25 }, { 0.5, 0.25 }, { 0.0625, -0.03125 } }; break;             // two phases, loop 0 -> 1 -> 2 -> 0
    default: c.fl = { { 0.0 }, { 0.0 }, { 0.0 } }; break;
    }
}
void setInflow(Case& c, int variant)
{
    c.in.clear();
    switch (variant) {
    case 0: c.in["A"][0] = 1.0; c.in["P"][2] = -1.0; break;
    case 1: c.in["A"][1] = 2.0; c.in["A"][0] = -0.5; c.in["B"][1] = 1.0; c.in["D"][2] = 0.25; break;
    case 2: c.in["B"][0] = 0.5; c.in["A"][2] = -3.0; break;
    default: break;
    }
}
std::vector<FD::CellSet> starts(const Case& c, int sign) { return startSets(Flow(c, sign)); }
Outcome computeOn(FD::Toolbox& t, const std::vector<FD::CellSet>& s, int sign, std::unique_ptr<FD::Solution>* keep)
{
    Outcome o;
    std::vector<std::string> w; for (auto& x : s) w.push_back(x.id().to_string());
    try { FD::Solution sol = compute(t, s, sign); const int scheme = nameScheme; nameScheme = 0; o.r.from(sol, w); nameScheme = scheme; o.ok = true; if (keep) keep->reset(new FD::Solution(std::move(sol))); } catch (const std::exception&) {}
    return o;
}
Outcome computeFresh(const Latest& l, const std::vector<FD::CellSet>& s, int sign)
{
    FD::Toolbox t(l.c.graph());
    if (l.pv) t.assignPoreVolume(l.c.pv);
    if (l.flux) t.assignConnectionFlux(l.c.flux());
    t.assignInflowFlux(l.c.inflow());
    return computeOn(t, s, sign, nullptr);
}
void setPv(Case& c, const std::string& pre)
{
    c.pv = { symPos(pre + "pv0", 0.0, 1e3), 1.0, 4.0 };
}

// Another toolbox, of another size, in use at the same time: a chain of five cells with times of flight 1, 2, .. in both directions.
struct Other {
    FD::Toolbox t;
    static std::vector<int> table() { return { 0, 1, 2, 1, 2, 3, 4, 3 }; }
    Other() : t(FD::ConnectivityGraph(5, table()))
    {
        Case c; c.n = 5; c.nb = table(); c.fl = { { 2.0 }, { -2.0 }, { 2.0 }, { -2.0 } }; c.pv.assign(5, 2.0); c.in["A"][0] = 2.0; c.in["P"][4] = -2.0;
        c.assign(t);
    }
    void check()
    {
        auto f = t.computeInjectionDiagnostics({ FD::CellSet(wellId("A"), { 0 }) }).fd;
        auto r = t.computeProductionDiagnostics({ FD::CellSet(wellId("P"), { 4 }) }).fd;
        const auto a = f.timeOfFlight(), b = r.timeOfFlight(); const auto c = f.concentration(wellId("A")), d = r.concentration(wellId("P"));
        bool ok = a.size() == 5 && b.size() == 5 && c.size() == 5 && d.size() == 5;
        for (int i = 0; ok && i < 5; ++i) ok = a[i] == i + 1.0 && b[i] == 5.0 - i && c.count(i) && c.at(i) == 1.0 && d.count(i) && d.at(i) == 1.0;
        symx_assert(ok, "another toolbox gives its own results");
    }
};

struct Snapshot { std::unique_ptr<FD::Solution> sol; Result r; };

// the operations are arbitrary (script < 0), or the script-th of a family of fixed long sequences with arbitrary pore volumes
void history(int len, bool prefilled, int script = -1)
{
    unsigned lcg = 12345u + 7919u * (unsigned) script;
    Latest l;
    FD::Toolbox first(l.c.graph());
    FD::Toolbox t(std::move(first));
    Other other;
    std::vector<Snapshot> snaps;
    auto doCompute = [&](int sign, const std::vector<FD::CellSet>& s) {
        Snapshot sn;
        Outcome o = computeOn(t, s, sign, &sn.sol);
        Outcome f = computeFresh(l, s, sign);
        symx_assert(o.ok == f.ok, "a request is accepted or rejected as in a new toolbox with the latest inputs");
        if (o.ok && f.ok) { sameResult(o.r, f.r, "results are those of a new toolbox with the latest inputs"); sn.r = o.r; snaps.push_back(std::move(sn)); }
    };
    if (prefilled) {
        setPv(l.c, "init"); l.pv = true; t.assignPoreVolume(l.c.pv);
        setFlux(l.c, 0); l.flux = true; t.assignConnectionFlux(l.c.flux());
        setInflow(l.c, 0); t.assignInflowFlux(l.c.inflow());
        doCompute(1, starts(l.c, 1));
        doCompute(-1, starts(l.c, -1));
    }
    for (int k = 0; k < len; ++k) {
        const std::string pre = nm("o", k);
        lcg = lcg * 1664525u + 1013904223u;
        const int op = script < 0 ? pick(pre, 17) : (int) ((lcg >> 16) % 17u);
        switch (op) {
        case 0: setPv(l.c, pre); l.pv = true; t.assignPoreVolume(l.c.pv); break;
        case 1: case 2: case 3: setFlux(l.c, op - 1); l.flux = true; t.assignConnectionFlux(l.c.flux()); break;
        case 4: case 5: case 6: setInflow(l.c, op - 4); t.assignInflowFlux(l.c.inflow()); break;
        case 7: doCompute(1, starts(l.c, 1)); break;
        case 8: doCompute(-1, starts(l.c, -1)); break;
        case 9: {
            bool threw = false;
            try { t.assignPoreVolume({ 7.0, 7.0 }); } catch (const std::exception&) { threw = true; }
            symx_assert(threw, "pore volumes of the wrong size are rejected");
            threw = false;
            typedef FD::ConnectionValues CV;
            CV v(CV::NumConnections{ 4 }, CV::NumPhases{ 1 }); v(CV::ConnID{ 0 }, CV::PhaseID{ 0 }) = -9.0;
            try { t.assignConnectionFlux(v); } catch (const std::exception&) { threw = true; }
            symx_assert(threw, "fluxes of the wrong size are rejected");
            break;
        }
        case 11: { Other o; o.check(); o.t = std::move(t); FD::Toolbox u(std::move(o.t)); t = std::move(u); break; }
        case 12: other.check(); break;
        case 13: setInflow(l.c, 3); t.assignInflowFlux(l.c.inflow()); break;
        case 14: setFlux(l.c, 3); l.flux = true; t.assignConnectionFlux(l.c.flux()); break;
        case 15: doCompute(1, {}); doCompute(-1, {}); break;
        case 16: { auto s = starts(l.c, 1); if (!s.empty()) s.erase(s.begin()); doCompute(1, s); s = starts(l.c, -1); std::reverse(s.begin(), s.end()); doCompute(-1, s); break; }
        default: {
            std::vector<FD::CellSet> bad; bad.emplace_back(FD::CellSetID("nobody"), std::vector<int>{ 0 });
            symx_assert(!computeOn(t, bad, 1, nullptr).ok, "an unknown start set is rejected");
            symx_assert(!computeOn(t, bad, -1, nullptr).ok, "an unknown start set is rejected");
            break;
        }
        }
    }
    doCompute(1, starts(l.c, 1));
    doCompute(-1, starts(l.c, -1));
    doCompute(1, starts(l.c, 1));
    other.check();
    nameScheme = 0;
    for (auto& s : snaps) { Result again; again.from(*s.sol, s.r.ids); sameResult(again, s.r, "solutions already returned are not altered by later calls"); }
    symx_reach("history");
}
}
extern "C" void c20_history() { nameScheme = 1; history(HL - 1, true); }
#if DEEP
extern "C" void c20_empty() { nameScheme = 2; history(4, false); }
#else
extern "C" void c20_empty() { nameScheme = 2; history(3, false); }
#endif

extern "C" void c20_long() { const int k = pick("script", LONGS); nameScheme = k % 4; history(LONGLEN, k % 2 == 0, k); }

// very many assignments between two computations
extern "C" void c20_often()
{
    Latest l; FD::Toolbox t(l.c.graph());
    const int what = pick("what", 4), n = oneOf<int>("times", { 255, 256, 1024, 65536 }), sign = pick("production", 2) ? -1 : 1;
    setPv(l.c, "first"); l.pv = l.flux = true; t.assignPoreVolume(l.c.pv);
    setFlux(l.c, 0); t.assignConnectionFlux(l.c.flux()); setInflow(l.c, 0); t.assignInflowFlux(l.c.inflow());
    auto ask = [&]() {
        Outcome a = computeOn(t, starts(l.c, sign), sign, nullptr), b = computeFresh(l, starts(l.c, sign), sign);
        symx_assert(a.ok && b.ok, "accepted"); sameResult(a.r, b.r, "results are those of a new toolbox with the latest inputs");
    };
    ask();
    if (what == 0) { for (int k = n; k-- > 0; ) { l.c.pv[1] = k + 1.5; t.assignPoreVolume(l.c.pv); } }
    else if (what == 1) { setFlux(l.c, 2); const auto v = l.c.flux(); setFlux(l.c, 1); const auto w = l.c.flux(); for (int k = n; k-- > 0; ) t.assignConnectionFlux(k ? v : w); }
    else if (what == 2) { setInflow(l.c, 1); const auto v = l.c.inflow(); setInflow(l.c, 2); const auto w = l.c.inflow(); for (int k = n; k-- > 0; ) t.assignInflowFlux(k ? v : w); }
    else { const int m = n > 1024 ? 300 : n; for (int k = 0; k < m; ++k) computeOn(t, starts(l.c, -sign), -sign, nullptr); }
    ask();
    symx_reach("often");
}
// the same with fluxes, inflows and pore volumes symbolic: input, compute, new input, compute
extern "C" void c20_symbolic()
{
    const double lo = 0.015625, hi = 64.0;
    Case c; c.n = 2;
    FD::Toolbox* t = nullptr;
    Case first;
    for (int round = 0; round < 2; ++round) {
        const std::string p = nm("r", round);
        Case d; d.n = 3;
        const int keepFlux = round && pick("keepFlux", 2), keepPv = round && pick("keepPv", 2), keepIn = round && pick("keepInflow", 2);
        d.nb = { 0, 1, 1, 2 };
        if (keepFlux) d.fl = first.fl; else d.fl = { { symFlux(p + "f0", lo, hi) }, { round ? symFlux(p + "f1", lo, hi) : 1.0 } };
        if (keepPv) d.pv = first.pv; else d.pv = { symPos(p + "pv0", 0, 1), symPos(p + "pv1", 0, 1), 1.0 };
        if (keepIn) d.in = first.in; else { const int at = round ? pick(p + "at", 3) : 0; d.in["A"][at] = symPos(p + "a", lo, hi); d.in["P"][(at + 1) % 3] = -symPos(p + "q", lo, hi); }
        if (!t) t = new FD::Toolbox(d.graph());
        const int order = round ? pick(p + "order", 2) : 0;
        if (order && !keepIn) t->assignInflowFlux(d.inflow());
        if (!keepFlux) t->assignConnectionFlux(d.flux());
        if (!keepPv) t->assignPoreVolume(d.pv);
        if (!order && !keepIn) t->assignInflowFlux(d.inflow());
        const int sign = round ? (pick("production", 2) ? -1 : 1) : 1;
        const auto s = starts(d, sign);
        FD::Toolbox u(d.graph()); d.assign(u);
        Outcome a = computeOn(*t, s, sign, nullptr), b = computeOn(u, s, sign, nullptr);
        symx_assert(a.ok && b.ok, "accepted");
        sameResult(a.r, b.r, "results are those of a new toolbox with the latest inputs");
        first = d;
    }
    delete t;
    symx_reach("symbolic");
}

// ------------------------------------------------------------------ C21
extern "C" void c21_sizes()
{
    const int n = 1 + pick("n", 3), m = 1 + pick("m", 2);
    std::vector<int> nb;
    if (n == 1) { for (int k = 0; k < m; ++k) { nb.push_back(0); nb.push_back(0); } } else for (int k = 0; k < m; ++k) { nb.push_back(k % n); nb.push_back((k + 1) % n); }
    FD::Toolbox t(FD::ConnectivityGraph(n, nb));
    typedef FD::ConnectionValues CV;
    bool hasPv = false, hasFlux = false;
    std::vector<double> pv; double q = 0;
    #if DEEP
    const int steps = 3;
#else
    const int steps = 2;
#endif
    std::map<FD::CellSetID, FD::CellSetValues> in; in[FD::CellSetID("A")][0] = 1.0;
    t.assignInflowFlux(in);
    for (int k = 0; k < steps; ++k) {
        if (pick(nm("what", k), 2)) {
            const int sz = pick(nm("pvsize", k), 5);
            std::vector<double> v; for (int i = 0; i < sz; ++i) v.push_back(1.0 + k + i);
            bool threw = false;
            try { t.assignPoreVolume(v); } catch (const std::exception&) { threw = true; }
            symx_assert(threw == (sz != n), "pore volumes are accepted exactly when there is one per cell");
            if (!threw) { hasPv = true; pv = v; }
        } else {
            const int sz = pick(nm("fluxsize", k), 5), np = 1 + pick(nm("phases", k), 2);
            CV v(CV::NumConnections{ (std::size_t) sz }, CV::NumPhases{ (std::size_t) np });
            for (int c = 0; c < sz; ++c) v(CV::ConnID{ (std::size_t) c }, CV::PhaseID{ 0 }) = n == 1 ? 0.0 : 0.5 * (k + 1);
            bool threw = false;
            try { t.assignConnectionFlux(v); } catch (const std::exception&) { threw = true; }
            symx_assert(threw == (sz != m), "fluxes are accepted exactly when there is one per connection");
            if (!threw) { hasFlux = true; q = 0.5 * (k + 1); }
        }
        std::vector<FD::CellSet> s; if (pick(nm("withStart", k), 2)) s.emplace_back(FD::CellSetID("A"), std::vector<int>{ 0 });
        Outcome o = computeOn(t, s, 1, nullptr);
        symx_assert(o.ok == (hasPv && hasFlux), "computing is possible exactly when pore volumes and fluxes have been set");
        if (o.ok && n > 1) {
            // cell 0 holds the source and receives nothing unless connection 1 leads back to it
            const bool loop = n == 2 && m == 2;
            if (!loop) symx_close(o.r.tof[0], pv[0], 1e-12, 0, "the previous data stay in force");
            if (!loop) symx_close(o.r.tof[1], pv[0] + pv[1] / q, 1e-12, 0, "the previous data stay in force");
        }
        Outcome r = computeOn(t, {}, -1, nullptr);
        symx_assert(r.ok == (hasPv && hasFlux), "computing is possible exactly when pore volumes and fluxes have been set");
    }
    symx_reach("sizes");
}
// arbitrary inflows; arbitrary start sets
namespace {
void startCase(int nsets, bool inflowGiven)
{
    const double lo = 0.015625, hi = 64.0;
    nameScheme = nsets > 1 ? 3 : pick("names", 4);
    Case c; c.n = 3; c.conn(0, 1, 1.0); c.conn(1, 2, 0.5); c.pv = { 1.0, 2.0, 3.0 };
    if (inflowGiven) {
        for (int i = 0; i < 2; ++i) { if (pick(nm("hasA", i), 2)) c.in["A"][i] = symFlux(nm("a", i), lo, hi); }
        if (pick("hasB", 2)) c.in["B"][pick("cellB", 2)] = symFlux("b", lo, hi);
    }
    const int sign = pick("production", 2) ? -1 : 1;
    bool want = true;
    std::vector<FD::CellSet> s;
    for (int k = 0; k < nsets; ++k) {
        const int id = nsets > 1 ? k : pick(nm("id", k), 3), mask = pick(nm("cells", k), nsets > 1 ? 4 : 8);
        const char* names[] = { "A", "B", "other" };
        std::vector<int> cells; for (int i = 0; i < 3; ++i) if (mask >> i & 1) cells.push_back(i);
        s.emplace_back(wellId(names[id]), cells);
        bool has = false;
        auto w = c.in.find(names[id]);
        if (w != c.in.end()) for (auto& p : w->second) if (sign > 0 ? p.second > 0.0 : p.second < 0.0) has = true;
        if (!has) want = false;
        for (int i : cells) { bool any = false; for (auto& q : c.in) { auto p = q.second.find(i); if (p != q.second.end() && (sign > 0 ? p->second > 0.0 : p->second < 0.0)) any = true; } if (!any) want = false; }
    }
    FD::Toolbox t(c.graph()); t.assignPoreVolume(c.pv); t.assignConnectionFlux(c.flux());
    if (inflowGiven) t.assignInflowFlux(c.inflow());
    Outcome o = computeOn(t, s, sign, nullptr);
    symx_assert(o.ok == want, "a start set is accepted exactly when its identifier and its cells have inflow of the required sign");
    if (o.ok) symx_assert(o.r.ids.size() == s.size(), "every requested start set has a result");
    symx_reach(o.ok ? "accepted" : "rejected");
}
}
extern "C" void c21_start() { startCase(1, true); }
extern "C" void c21_starts() { startCase(2, true); }
extern "C" void c21_none() { startCase(1, false); }
// start sets of many cells, many start sets
extern "C" void c21_many()
{
    const int sign = pick("production", 2) ? -1 : 1, n = oneOf<int>("cells", { 9, 40, 300 }), m = n - 2, wells = oneOf<int>("wells", { 1, 7 });
    const int bad = oneOf<int>("missing", { -1, 0, 1, 2, 3, m / 2, m - 2, m - 1 }), order = pick("order", 3);
    Case c; c.n = n; for (int i = 0; i + 1 < n; ++i) c.conn(i, i + 1, sign * 1.0);
    c.pv.assign(n, 1.0); c.pv[1] = symPos("pv", 0.0, 10.0);
    for (int i = 0; i < m; ++i) if (i != bad) c.in["W" + std::to_string(i % wells)][i] = sign * (0.5 + i % 3);
    for (int w = 0; w < wells; ++w) c.in["W" + std::to_string(w)][n - 1] = sign * 1.0;
    std::vector<FD::CellSet> s;
    for (int w = 0; w < wells; ++w) { FD::CellSet q(wellId("W" + std::to_string(w))); for (int i = 0; i < m; ++i) { const int k = order == 0 ? i : order == 1 ? m - 1 - i : (int) ((i * 7919L) % m); if (k % wells == w) q.insert(k); } s.push_back(q); }
    if (order == 1) std::reverse(s.begin(), s.end());
    FD::Toolbox t(c.graph()); c.assign(t);
    Outcome o = computeOn(t, s, sign, nullptr);
    symx_assert(o.ok == (bad < 0), "a start set is accepted exactly when its identifier and its cells have inflow of the required sign");
    symx_reach(o.ok ? "many accepted" : "many rejected");
}
// any flow, loops included: every request that is consistent succeeds
extern "C" void c21_flow()
{
    Case c; c.n = 3;
    const double f[] = { 0.0, 1.0, -0.25 };
    c.conn(0, 1, f[pick("f01", 3)]); c.conn(1, 2, f[pick("f12", 3)]); c.conn(2, 0, f[pick("f20", 3)]); c.conn(1, 0, f[pick("f10", 3)]);
    c.pv = { symPos("pv", 0.0, 1e3), 1.0, 0.0 };
    c.in["A"][0] = 1.0; c.in["A"][1] = -0.5; c.in["B"][2] = pick("b", 2) ? 0.5 : -2.0;
    const int sign = pick("production", 2) ? -1 : 1;
    FD::Toolbox t(c.graph()); c.assign(t);
    Outcome o = computeOn(t, starts(c, sign), sign, nullptr);
    symx_assert(o.ok, "a consistent request succeeds");
    symx_reach("flow");
}

// ------------------------------------------------------------------ C04: diagnostics
extern "C" void c04_toolbox()
{
    Latest l;
    l.c.pv = { symPos("pv0", 0.0, 1e3), 1.0, 4.0 }; l.pv = l.flux = true;
    setFlux(l.c, pick("flux", 3)); setInflow(l.c, pick("inflow", 2));
    const int sign = pick("production", 2) ? -1 : 1, before = pick("before", 2);
    FD::Toolbox t(l.c.graph()); l.c.assign(t);
    const auto s = starts(l.c, sign);
    Outcome w;
    if (before) w = computeOn(t, s, sign, nullptr);
    const std::size_t live = symx_live_allocs();
    symx_fault_begin(1);
    Outcome o = computeOn(t, s, sign, nullptr);
    const int f = symx_fault_end();
    symx_assert(o.ok == (f == 0), "a diagnostics computation throws exactly when an allocation failed");
    symx_assert(symx_live_allocs() == live, "nothing is leaked");
    Outcome again = computeOn(t, s, sign, nullptr), fresh = computeFresh(l, s, sign);
    symx_assert(again.ok && fresh.ok, "the call succeeds once memory is available");
    sameResult(again.r, fresh.r, "the toolbox gives the right answer after a failure");
    if (o.ok) sameResult(o.r, fresh.r, "the toolbox gives the right answer");
    symx_reach(f ? "failed allocation" : "no failure");
}
ENTRIES(E(c20_history), E(c20_empty), E(c20_long), E(c20_often), E(c20_symbolic), E(c21_sizes), E(c21_start), E(c21_starts), E(c21_none), E(c21_flow), E(c21_many), E(c04_toolbox))
