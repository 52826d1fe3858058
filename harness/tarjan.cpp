// C01-C04: strongly connected components (C interface).
#include "common.hpp"
#include <opm/utility/graph/tarjan.h>

namespace {

struct Graph {
    int n = 0;
    std::vector<std::size_t> ia;
    std::vector<int> ja;
    std::vector<std::vector<char>> reach;     // reflexive-transitive closure

    void fromRows(const std::vector<std::vector<int>>& r)
    {
        n = (int) r.size(); ia.assign(1, 0); ja.clear();
        for (auto& row : r) { ja.insert(ja.end(), row.begin(), row.end()); ia.push_back(ja.size()); }
    }
    void closure()
    {
        reach.assign(n, std::vector<char>(n, 0));
        for (int i = 0; i < n; ++i) { reach[i][i] = 1; for (std::size_t k = ia[i]; k < ia[i + 1]; ++k) reach[i][ja[k]] = 1; }
        for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) if (reach[i][k]) for (int j = 0; j < n; ++j) if (reach[k][j]) reach[i][j] = 1;
    }
    const int* jp() const { static const int none = 0; return ja.empty() ? &none : ja.data(); }
};

// adjacency as symbolic bits, rows in ascending order
Graph bitGraph(const char* p, int n, bool self)
{
    std::vector<std::vector<int>> r(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if ((self || i != j) && symx_concretize(symInt(nm(p, i, j), 0, 1))) r[i].push_back(j);
    Graph g; g.fromRows(r); return g;
}
// rows of arbitrary content: any order, repeats, self edges
Graph rowGraph(const char* p, int n, int maxdeg)
{
    std::vector<std::vector<int>> r(n);
    for (int i = 0; i < n; ++i) {
        int d = pick(nm(p, i) + "deg", maxdeg + 1);
        for (int k = 0; k < d; ++k) r[i].push_back(symInt(nm(p, i, k), 0, n - 1));
    }
    Graph g; g.fromRows(r); return g;
}

typedef std::vector<std::vector<int>> Comps;
Comps comps(const TarjanSCCResult* s)
{
    Comps c;
    const std::size_t nc = tarjan_get_numcomponents(s);
    for (std::size_t i = 0; i < nc; ++i) { TarjanComponent t = tarjan_get_strongcomponent(s, i); c.emplace_back(t.vertex, t.vertex + t.size); }
    return c;
}

void checkSCC(const Graph& g, const Comps& c, const std::vector<char>& in, const char* what)
{
    std::vector<int> where(g.n, -1);
    for (std::size_t k = 0; k < c.size(); ++k) {
        symx_assert(!c[k].empty(), "no component is empty");
        for (int v : c[k]) {
            symx_assert(v >= 0 && v < g.n, "component members are vertices of the graph");
            symx_assert(where[v] < 0, "each vertex occurs once");
            where[v] = (int) k;
        }
    }
    for (int v = 0; v < g.n; ++v) symx_assert((where[v] >= 0) == (in[v] != 0), what);
    for (int u = 0; u < g.n; ++u) for (int v = 0; v < g.n; ++v) if (in[u] && in[v]) {
        symx_assert((where[u] == where[v]) == (g.reach[u][v] && g.reach[v][u]), "same component exactly when mutually reachable");
        if (g.reach[u][v]) symx_assert(where[v] <= where[u], "no edge leads to a later component");
    }
}

void globalCase(Graph g)
{
    const std::size_t live = symx_live_allocs();
    const auto ia = g.ia; 
    TarjanSCCResult* s = tarjan(g.n, g.ia.data(), g.jp());
    symx_assert(s != nullptr, "a result is returned");
    g.closure();
    auto c = comps(s);
    checkSCC(g, c, std::vector<char>(g.n, 1), "every vertex is in a component");
    symx_observe_int("ncomp", (long) c.size());
    for (auto& k : c) for (int v : k) symx_observe_int("v", v);
    destroy_tarjan_sccresult(s);
    symx_assert(symx_live_allocs() == live, "all memory is released");
    symx_reach("global");
}

}

#ifndef NB
#define NB 4
#endif
#ifndef NR
#define NR 3
#endif
#ifndef DR
#define DR 2
#endif

extern "C" void c01_bits() { globalCase(bitGraph("a", NB, false)); }
extern "C" void c01_self() { int n = pick("n", 4); globalCase(bitGraph("a", n, true)); }
extern "C" void c01_rows() { globalCase(rowGraph("r", NR, DR)); }

// Chain 0 -> 1 -> ... -> n-1 (vertex numbers optionally reversed) with two extra edges of arbitrary end points
// (out of a table of positions), so that components of any large size arise.
namespace {
int posn(const char* name, int n)
{
    int k = symx_concretize(symInt(name, 0, 5));
    const int t[6] = { 0, 1, n / 2, n / 2 + 1, n - 2, n - 1 };
    return t[k];
}
}
extern "C" void c01_chain()
{
    const int n = oneOf<int>("n", { 40, 300 });
    const int dir = pick("reversed", 2);
    const int a = posn("a", n), b = posn("b", n), c = posn("c", n), d = posn("d", n);
    auto id = [&](int i) { return dir ? n - 1 - i : i; };
    std::vector<std::vector<int>> r(n);
    const int first = pick("extra_first", 2);
    for (int pass = 0; pass < 2; ++pass) {
        if (pass == first) for (int i = 0; i + 1 < n; ++i) r[id(i)].push_back(id(i + 1));
        else { r[id(a)].push_back(id(b)); r[id(c)].push_back(id(d)); }
    }
    Graph g; g.fromRows(r);
    TarjanSCCResult* s = tarjan(n, g.ia.data(), g.jp());
    symx_assert(s != nullptr, "a result is returned");
    // chain positions form intervals: join[i] set when i and i+1 are in the same component
    std::vector<char> join(n, 0);
    auto back = [&](int u, int v) { for (int i = v; i < u; ++i) join[i] = 1; };
    // Extra edge u->v with v<u closes [v,u].  (Forward edges add nothing to a chain.)
    if (b < a) back(a, b);
    if (d < c) back(c, d);
    auto cc = comps(s);
    std::vector<int> where(n, -1);
    for (std::size_t k = 0; k < cc.size(); ++k) for (int v : cc[k]) { symx_assert(v >= 0 && v < n && where[v] < 0, "each vertex occurs once"); where[v] = (int) k; }
    for (int i = 0; i < n; ++i) {
        symx_assert(where[id(i)] >= 0, "every vertex is in a component");
        if (i + 1 < n) {
            if (join[i]) symx_assert(where[id(i)] == where[id(i + 1)], "loop members share a component");
            else symx_assert(where[id(i + 1)] < where[id(i)], "successor is listed earlier and separate");
        }
    }
    destroy_tarjan_sccresult(s);
    symx_reach("chain");
}

// A hub of large degree: hub -> all, and each vertex of a symbolic subset pattern -> hub.
extern "C" void c01_hub()
{
    const int n = oneOf<int>("n", { 20, 270 });
    const int hub = posn("hub", n), m = 1 + pick("modulus", 4);
    std::vector<std::vector<int>> r(n);
    for (int i = 0; i < n; ++i) if (i != hub) { r[hub].push_back(i); if (i % m == 0) r[i].push_back(hub); }
    Graph g; g.fromRows(r);
    TarjanSCCResult* s = tarjan(n, g.ia.data(), g.jp());
    symx_assert(s != nullptr, "a result is returned");
    auto cc = comps(s);
    std::vector<int> where(n, -1);
    for (std::size_t k = 0; k < cc.size(); ++k) for (int v : cc[k]) { symx_assert(v >= 0 && v < n && where[v] < 0, "each vertex occurs once"); where[v] = (int) k; }
    for (int i = 0; i < n; ++i) {
        symx_assert(where[i] >= 0, "every vertex is in a component");
        if (i == hub) continue;
        if (i % m == 0) symx_assert(where[i] == where[hub], "loop members share a component");
        else symx_assert(where[i] < where[hub], "leaf is listed before the hub and separate");
    }
    destroy_tarjan_sccresult(s);
    symx_reach("hub");
}

// Blocks in sequence: cliques, bipartite blocks, rings or independent sets, with several edges from each block to the next.
extern "C" void c01_clique()
{
    const int nb = 2 + pick("blocks", 2), how = pick("numbering", 3), dn = pick("descending", 2);
    std::vector<int> sz, kind; int n = 0;
    for (int b = 0; b < nb; ++b) { sz.push_back(b == 2 && !DEEP ? 5 : oneOf<int>(nm("size", b).c_str(), { 2, 5, 40 })); kind.push_back(pick(nm("kind", b), b == 2 && !DEEP ? 2 : 4)); n += sz[b]; }
    std::vector<int> blk(n), off(n);
    { int v = 0; for (int b = 0; b < nb; ++b) for (int i = 0; i < sz[b]; ++i, ++v) { blk[v] = b; off[v] = i; } }
    int step = 7; for (bool ok = false; !ok; ) { ok = true; for (int d = 2; d <= step; ++d) if (step % d == 0 && n % d == 0) ok = false; if (!ok) ++step; }
    auto id = [&](int v) { return how == 0 ? v : how == 1 ? n - 1 - v : (v * step) % n; };
    auto edge = [&](int u, int v) {
        if (blk[u] == blk[v]) {
            const int k = kind[blk[u]], m = sz[blk[u]];
            if (k == 0) return u != v;
            if (k == 1) return off[u] % 2 != off[v] % 2;
            if (k == 2) return off[v] == (off[u] + 1) % m;
            return false;
        }
        return blk[v] == blk[u] + 1 && (off[u] + 2 * off[v]) % 3 != 1;
    };
    std::vector<std::vector<int>> r(n);
    for (int u = 0; u < n; ++u) for (int k = 0; k < n; ++k) { const int v = dn ? n - 1 - k : k; if (edge(u, v)) r[id(u)].push_back(id(v)); }
    Graph g; g.fromRows(r);
    TarjanSCCResult* s = tarjan(n, g.ia.data(), g.jp());
    symx_assert(s != nullptr, "a result is returned");
    auto cc = comps(s);
    std::vector<int> where(n, -1);
    for (std::size_t k = 0; k < cc.size(); ++k) for (int v : cc[k]) { symx_assert(v >= 0 && v < n && where[v] < 0, "each vertex occurs once"); where[v] = (int) k; }
    for (int u = 0; u < n; ++u) {
        symx_assert(where[id(u)] >= 0, "every vertex is in a component");
        for (int v = 0; v < n; ++v) {
            if (blk[u] == blk[v] && u != v) symx_assert((where[id(u)] == where[id(v)]) == (kind[blk[u]] != 3), "same component exactly when mutually reachable");
            else if (edge(u, v)) symx_assert(where[id(v)] < where[id(u)], "an edge between components leads to an earlier one");
            else if (blk[u] != blk[v]) symx_assert(where[id(u)] != where[id(v)], "blocks are separate components");
        }
    }
    destroy_tarjan_sccresult(s);
    symx_reach("clique");
}

// More vertices, edges and components than 16 bits count: chain or hub with one extra edge back.
namespace {
const int WIDE = 70000;
void wideGraph(int kind, int from, int to, std::vector<std::size_t>& ia, std::vector<int>& ja)
{
    const int n = WIDE;
    ia.assign(1, 0); ja.clear(); ia.reserve(n + 1); ja.reserve(n + 2);
    for (int i = 0; i < n; ++i) {
        if (kind == 0) { if (i + 1 < n) ja.push_back(i + 1); if (i == from) ja.push_back(to); }
        else { if (i == 0) for (int j = 1; j < n; ++j) ja.push_back(j); if (i == from && from != 0) ja.push_back(0); }
        ia.push_back(ja.size());
    }
}
void wideCheck(int kind, int from, int to, const TarjanSCCResult* s, int start)
{
    const int n = WIDE;
    std::vector<int> where(n, -1);
    const int nc = (int) tarjan_get_numcomponents(s); int cnt = 0;
    for (int k = 0; k < nc; ++k) { const TarjanComponent c = tarjan_get_strongcomponent(s, k); for (std::size_t i = 0; i < c.size; ++i) { const int v = c.vertex[i]; if (v < 0 || v >= n || where[v] >= 0) { symx_assert(0, "each vertex occurs once"); return; } where[v] = k; ++cnt; } }
    symx_assert(cnt == n - start, "exactly the reachable vertices are covered");
    bool ok = true, ord = true;
    for (int i = start; i < n; ++i) {
        if (kind == 0) { if (i + 1 < n) { const bool same = from >= to && i >= to && i < from; ok &= (where[i] == where[i + 1]) == same; ord &= where[i + 1] <= where[i]; } }
        else if (i > 0) { const bool same = i == from; ok &= (where[i] == where[0]) == same; ord &= where[i] <= where[0]; }
    }
    symx_assert(ok, "same component exactly when mutually reachable");
    symx_assert(ord, "an edge between components leads to an earlier one");
    symx_assert(nc == (kind == 0 ? n - start - (from >= to ? from - to : 0) : n - (from != 0)), "number of components");
}
int widePos(const char* name) { return oneOf<int>(name, { 0, 40000, 69999 }); }
}
extern "C" void c01_wide()
{
    const int kind = pick("hub", 2), from = widePos("from"), to = kind ? 0 : widePos("to");
    std::vector<std::size_t> ia; std::vector<int> ja; wideGraph(kind, from, to, ia, ja);
    TarjanSCCResult* s = tarjan(WIDE, ia.data(), ja.data());
    symx_assert(s != nullptr, "a result is returned");
    wideCheck(kind, from, to, s, 0);
    destroy_tarjan_sccresult(s);
    symx_reach("wide");
}

// ------------------------------------------------------------------------------------------------ C02
#ifndef N2
#define N2 3
#endif
namespace {
void reachCase(Graph g, int maxStart, int prior)
{
    const std::size_t live = symx_live_allocs();
    const int extra = pick("extra", 2) * 2;
    TarjanWorkSpace* ws = create_tarjan_workspace(g.n + extra);
    symx_assert(ws != nullptr, "work space is created");
    if (prior > 0) {
        // earlier use of the same work space: 1 = a ring, 2 = a star, over as many vertices as fit
        const int m = g.n + extra;
        std::vector<std::vector<int>> r(m);
        for (int i = 0; i < m; ++i) { if (prior == 1) r[i].push_back((i + 1) % m); else if (i) r[0].push_back(i); }
        Graph h; h.fromRows(r);
        const int st[2] = { m - 1, 0 };
        TarjanSCCResult* s = tarjan_reachable_sccs(h.n, h.ia.data(), h.jp(), prior == 1 ? 1 : 2, st, ws);
        symx_assert(s != nullptr, "a result is returned");
        destroy_tarjan_sccresult(s);
    }
    const int ns = pick("nstart", maxStart + 1);
    std::vector<int> st; for (int i = 0; i < ns; ++i) st.push_back(symInt(nm("s", i), 0, g.n - 1));
    const int dummy = 0;
    TarjanSCCResult* s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), ns, ns ? st.data() : &dummy, ws);
    symx_assert(s != nullptr, "a result is returned");
    g.closure();
    std::vector<char> in(g.n, 0);
    for (int x : st) for (int v = 0; v < g.n; ++v) if (g.reach[x][v]) in[v] = 1;
    auto c = comps(s);
    checkSCC(g, c, in, "exactly the reachable vertices are listed");
    symx_observe_int("ncomp", (long) c.size());
    for (auto& k : c) for (int v : k) symx_observe_int("v", v);
    destroy_tarjan_sccresult(s);
    destroy_tarjan_workspace(ws);
    symx_assert(symx_live_allocs() == live, "all memory is released");
    symx_reach("reachable");
}
}
extern "C" void c02_bits() { reachCase(bitGraph("a", N2, true), 2, 0); }
extern "C" void c02_prior() { reachCase(bitGraph("a", N2, false), 2, 1 + pick("prior", 2)); }
// More vertices than 16 bits count; the start is any of three positions (chain: the tail is reached; hub: everything from the hub)
extern "C" void c02_wide()
{
    const int kind = pick("hub", 2), from = widePos("from"), to = kind ? 0 : widePos("to"), st0 = kind ? 0 : oneOf<int>("start", { 0, 35000, 66000 }), twice = pick("twice", 2);
    symx_assume(kind || to >= st0 || from < st0);
    std::vector<std::size_t> ia; std::vector<int> ja; wideGraph(kind, from, to, ia, ja);
    TarjanWorkSpace* ws = create_tarjan_workspace(WIDE);
    symx_assert(ws != nullptr, "work space is created");
    if (twice) { const int z = WIDE - 1; destroy_tarjan_sccresult(tarjan_reachable_sccs(WIDE, ia.data(), ja.data(), 1, &z, ws)); }
    const int st[2] = { st0, WIDE - 1 };
    TarjanSCCResult* s = tarjan_reachable_sccs(WIDE, ia.data(), ja.data(), 2, st, ws);
    symx_assert(s != nullptr, "a result is returned");
    wideCheck(kind, from >= st0 ? from : -1, from >= st0 ? to : 0, s, st0);
    destroy_tarjan_sccresult(s); destroy_tarjan_workspace(ws);
    symx_reach("wide");
}
// More starts than vertices, mostly repeats.
extern "C" void c02_lots()
{
    const int big = pick("big", 2), ns = big ? oneOf<int>("nstart", { 41, 150, 70000 }) : oneOf<int>("nstart", { 4, 5, 12 });
    Graph g;
    if (big) {
        const int n = 40, a = oneOf<int>("a", { 0, 20, 39 }), b = oneOf<int>("b", { 5, 30 });
        std::vector<std::vector<int>> r(n); for (int i = 0; i + 1 < n; ++i) if (i % 10 != 9) r[i].push_back(i + 1);
        r[a].push_back(b); g.fromRows(r);
    } else g = bitGraph("a", 3, false);
    const int same = pick("same", 2), x = big ? oneOf<int>("x", { 3, 17, 38 }) : symInt("x", 0, g.n - 1), last = pick("last", 2);
    std::vector<int> st; for (int i = 0; i < ns; ++i) st.push_back(i == (last ? ns - 1 : 0) ? x : same ? g.n - 1 : g.n / 2 + (int) ((long) i * 7 % (g.n - g.n / 2)));
    TarjanWorkSpace* ws = create_tarjan_workspace(g.n);
    symx_assert(ws != nullptr, "work space is created");
    TarjanSCCResult* s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), ns, st.data(), ws);
    symx_assert(s != nullptr, "a result is returned");
    g.closure();
    std::vector<char> in(g.n, 0), seen(g.n, 0);
    for (int i = 0; i < ns; ++i) { if (i != (last ? ns - 1 : 0)) { if (seen[st[i]]) continue; seen[st[i]] = 1; } for (int v = 0; v < g.n; ++v) if (g.reach[st[i]][v]) in[v] = 1; }
    checkSCC(g, comps(s), in, "exactly the reachable vertices are listed");
    destroy_tarjan_sccresult(s); destroy_tarjan_workspace(ws);
    symx_reach("lots");
}
extern "C" void c02_four() { Graph g = bitGraph("a", 4, false); reachCase(g, 1, 0); }
extern "C" void c02_rows() { reachCase(rowGraph("r", 3, 2), 1, 0); }
extern "C" void c02_starts() { reachCase(bitGraph("a", 3, false), 3, 0); }
// Two consecutive computations on one work space, both symbolic.
extern "C" void c02_seq()
{
    TarjanWorkSpace* ws = create_tarjan_workspace(3);
    symx_assert(ws != nullptr, "work space is created");
    for (int round = 0; round < 2; ++round) {
        Graph g = bitGraph(round ? "b" : "a", 3, false);
        int st[1] = { symInt(nm("s", round), 0, 2) };
        TarjanSCCResult* s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), 1, st, ws);
        symx_assert(s != nullptr, "a result is returned");
        g.closure();
        std::vector<char> in(g.n, 0);
        for (int v = 0; v < g.n; ++v) in[v] = g.reach[st[0]][v];
        checkSCC(g, comps(s), in, "exactly the reachable vertices are listed");
        destroy_tarjan_sccresult(s);
    }
    destroy_tarjan_workspace(ws);
    symx_reach("sequence");
}
// Long chain with a symbolic start and a symbolic back edge: reachable set is the tail from the start
extern "C" void c02_chain()
{
    const int n = oneOf<int>("n", { 30, 280 }), st0 = posn("start", n), a = posn("a", n), b = posn("b", n), big = pick("big", 2);
    std::vector<std::vector<int>> r(n);
    for (int i = 0; i + 1 < n; ++i) r[i].push_back(i + 1);
    r[a].push_back(b);
    Graph g; g.fromRows(r);
    TarjanWorkSpace* ws = create_tarjan_workspace(n + 17 * big);
    int st[2] = { st0, n - 1 };
    TarjanSCCResult* s = tarjan_reachable_sccs(n, g.ia.data(), g.jp(), 2, st, ws);
    symx_assert(s != nullptr, "a result is returned");
    int lo = st0; if (b < a && a >= st0 && b < lo) lo = b;
    if (b < a && st0 > a) lo = st0;
    auto cc = comps(s);
    std::vector<int> where(n, -1);
    for (std::size_t k = 0; k < cc.size(); ++k) for (int v : cc[k]) { symx_assert(v >= 0 && v < n && where[v] < 0, "each vertex occurs once"); where[v] = (int) k; }
    for (int i = 0; i < n; ++i) {
        symx_assert((where[i] >= 0) == (i >= lo), "exactly the reachable vertices are listed");
        if (i >= lo && i + 1 < n) {
            const bool j = b < a && i >= b && i < a;
            symx_assert(j ? where[i] == where[i + 1] : where[i + 1] < where[i], "components and order along a chain");
        }
    }
    destroy_tarjan_sccresult(s); destroy_tarjan_workspace(ws);
    symx_reach("chain");
}

// ------------------------------------------------------------------------------------------------ C03
namespace {
void reverseCase(TarjanSCCResult* s)
{
    const Comps c = comps(s);
    const int times = 1 + pick("times", 3);
    for (int t = 1; t <= times; ++t) {
        const int ok = tarjan_reverse_sccresult(s);
        symx_assert(ok == 1, "reversal reports success");
        symx_assert(tarjan_get_numcomponents(s) == c.size(), "number of components is kept");
        for (std::size_t k = 0; k < c.size(); ++k) {
            const auto& old = (t & 1) ? c[c.size() - 1 - k] : c[k];
            TarjanComponent n = tarjan_get_strongcomponent(s, k);
            symx_assert(n.size == old.size(), "component size is kept");
            for (std::size_t i = 0; i < old.size(); ++i) symx_assert(n.vertex[i] == old[i], "component content is kept vertex for vertex");
        }
    }
    destroy_tarjan_sccresult(s);
    symx_reach("reverse");
}
}
extern "C" void c03_small()
{
    Graph g = bitGraph("a", NR, false);
    const std::size_t live = symx_live_allocs();
    TarjanSCCResult* s;
    if (pick("global", 2)) s = tarjan(g.n, g.ia.data(), g.jp());
    else {
        TarjanWorkSpace* ws = create_tarjan_workspace(g.n);
        int st[2] = { symInt("s0", 0, g.n - 1), symInt("s1", 0, g.n - 1) };
        s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), pick("nstart", 3), st, ws);
        destroy_tarjan_workspace(ws);
    }
    symx_assert(s != nullptr, "a result is returned");
    reverseCase(s);
    symx_assert(symx_live_allocs() == live, "all memory is released");
}
// Three consecutive rings whose sizes straddle internal size thresholds, linked in a chain
extern "C" void c03_large()
{
    int sz[3];
    for (int i = 0; i < 3; ++i) {
        const int k = symx_concretize(symInt(nm("size", i), 0, i == 1 ? 5 : 3));
        const int t[6] = { 1, 3, 1024, 1023, 1025, 1700 };
        sz[i] = t[k];
    }
    const int n = sz[0] + sz[1] + sz[2];
    std::vector<std::size_t> ia(1, 0); std::vector<int> ja;
    int v = 0;
    for (int k = 0; k < 3; ++k) {
        const int base = v;
        for (int i = 0; i < sz[k]; ++i, ++v) {
            ja.push_back(i + 1 < sz[k] ? v + 1 : base);
            if (i + 1 == sz[k] && k < 2) ja.push_back(v + 1);
            ia.push_back(ja.size());
        }
    }
    TarjanSCCResult* s = tarjan(n, ia.data(), ja.data());
    symx_assert(s != nullptr, "a result is returned");
    symx_assert(tarjan_get_numcomponents(s) == 3, "three rings");
    reverseCase(s);
}

// More components, and larger ones, than 16 bits count
extern "C" void c03_wide()
{
    const int from = widePos("from"), to = widePos("to"), times = 1 + pick("times", 2);
    std::vector<std::size_t> ia; std::vector<int> ja; wideGraph(0, from, to, ia, ja);
    TarjanSCCResult* s = tarjan(WIDE, ia.data(), ja.data());
    symx_assert(s != nullptr, "a result is returned");
    const std::size_t nc = tarjan_get_numcomponents(s);
    std::vector<int> flat; std::vector<std::size_t> len;
    for (std::size_t k = 0; k < nc; ++k) { const TarjanComponent c = tarjan_get_strongcomponent(s, k); len.push_back(c.size); for (std::size_t i = 0; i < c.size; ++i) flat.push_back(c.vertex[i]); }
    for (int t = 0; t < times; ++t) symx_assert(tarjan_reverse_sccresult(s) != 0, "reversal succeeds");
    symx_assert(tarjan_get_numcomponents(s) == nc, "number of components is kept");
    bool ok = true; std::size_t at = 0;
    for (std::size_t k = 0; k < nc && ok; ++k) {
        const TarjanComponent c = tarjan_get_strongcomponent(s, times % 2 ? nc - 1 - k : k);
        ok = c.size == len[k];
        for (std::size_t i = 0; ok && i < c.size; ++i) ok = c.vertex[i] == flat[at++];
    }
    symx_assert(ok, "every component keeps its vertices, in the opposite order of components");
    destroy_tarjan_sccresult(s);
    symx_reach("wide");
}
// Many small components: a chain whose i-th link is a single vertex or a pair of mutually connected vertices
extern "C" void c03_many()
{
    const int n = oneOf<int>("links", { 9, 260, 1100 }), m = 1 + pick("period", 4), off = pick("offset", 2);
    std::vector<std::size_t> ia(1, 0); std::vector<int> ja; int v = 0, nc = 0;
    for (int i = 0; i < n; ++i, ++nc) {
        const bool pair = (i + off) % m == 0;
        if (pair) { ja.push_back(v + 1); ia.push_back(ja.size()); ja.push_back(v); ++v; }
        if (i + 1 < n) ja.push_back(v + 1);
        ia.push_back(ja.size()); ++v;
    }
    TarjanSCCResult* s = tarjan(v, ia.data(), ja.data());
    symx_assert(s != nullptr, "a result is returned");
    symx_assert((int) tarjan_get_numcomponents(s) == nc, "one component per link");
    reverseCase(s);
}

// ------------------------------------------------------------------------------------------------ C04 (C routines)
extern "C" void c04_tarjan()
{
    Graph g = rowGraph("r", 3, 1);
    const std::size_t live = symx_live_allocs();
    symx_fault_begin(2);
    TarjanSCCResult* s = tarjan(g.n, g.ia.data(), g.jp());
    const int f = symx_fault_end();
    symx_assert((s == nullptr) == (f > 0), "null result exactly when an allocation failed");
    g.closure();
    if (s) { checkSCC(g, comps(s), std::vector<char>(g.n, 1), "every vertex is in a component"); destroy_tarjan_sccresult(s); }
    symx_assert(symx_live_allocs() == live, "nothing is leaked");
    TarjanSCCResult* t = tarjan(g.n, g.ia.data(), g.jp());
    symx_assert(t != nullptr, "works once memory is available");
    checkSCC(g, comps(t), std::vector<char>(g.n, 1), "every vertex is in a component");
    destroy_tarjan_sccresult(t);
    symx_assert(symx_live_allocs() == live, "nothing is leaked");
    symx_reach("tarjan");
}
extern "C" void c04_reachable()
{
    Graph g = bitGraph("a", 3, false);
    const std::size_t live = symx_live_allocs();
    symx_fault_begin(2);
    TarjanWorkSpace* ws = create_tarjan_workspace(g.n);
    if (!ws) {
        symx_assert(symx_fault_end() > 0, "work space creation fails only when memory runs out");
        symx_assert(symx_live_allocs() == live, "nothing is leaked");
        symx_reach("no work space");
        return;
    }
    symx_assert(symx_fault_count() == 0, "failure to allocate the work space is reported");
    int st[1] = { symInt("s0", 0, g.n - 1) };
    TarjanSCCResult* s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), 1, st, ws);
    const int f = symx_fault_end();
    symx_assert((s == nullptr) == (f > 0), "null result exactly when an allocation failed");
    g.closure();
    std::vector<char> in(g.n, 0); for (int v = 0; v < g.n; ++v) in[v] = g.reach[st[0]][v];
    if (s) { checkSCC(g, comps(s), in, "exactly the reachable vertices are listed"); destroy_tarjan_sccresult(s); }
    // the work space stays usable
    s = tarjan_reachable_sccs(g.n, g.ia.data(), g.jp(), 1, st, ws);
    symx_assert(s != nullptr, "works once memory is available");
    checkSCC(g, comps(s), in, "exactly the reachable vertices are listed");
    destroy_tarjan_sccresult(s);
    destroy_tarjan_workspace(ws);
    destroy_tarjan_workspace(nullptr); destroy_tarjan_sccresult(nullptr);
    symx_assert(symx_live_allocs() == live, "nothing is leaked");
    symx_reach("reachable");
}
extern "C" void c04_reverse()
{
    Graph g = rowGraph("r", 3, 1);
    const std::size_t live = symx_live_allocs();
    TarjanSCCResult* s = tarjan(g.n, g.ia.data(), g.jp());
    symx_assert(s != nullptr, "a result is returned");
    const Comps c = comps(s);
    const std::size_t mid = symx_live_allocs();
    symx_fault_begin(3);
    const int ok = tarjan_reverse_sccresult(s);
    const int f = symx_fault_end();
    symx_assert((ok != 0) == (f == 0), "success exactly when no allocation failed");
    symx_assert(symx_live_allocs() == mid, "nothing is leaked");
    Comps d = comps(s);
    symx_assert(d.size() == c.size(), "number of components is kept");
    for (std::size_t k = 0; k < c.size(); ++k) symx_assert(d[k] == (ok ? c[c.size() - 1 - k] : c[k]), "old order intact on failure, reversed on success");
    const int ok2 = tarjan_reverse_sccresult(s);
    symx_assert(ok2 != 0, "works once memory is available");
    d = comps(s);
    for (std::size_t k = 0; k < c.size(); ++k) symx_assert(d[k] == (ok ? c[k] : c[c.size() - 1 - k]), "reversal after a failure is correct");
    destroy_tarjan_sccresult(s);
    symx_assert(symx_live_allocs() == live, "nothing is leaked");
    symx_reach("reverse");
}

ENTRIES(E(c01_bits), E(c01_self), E(c01_rows), E(c01_chain), E(c01_hub), E(c01_clique), E(c01_wide), E(c02_wide), E(c02_lots), E(c03_wide), E(c02_four), E(c03_many), E(c02_bits), E(c02_prior), E(c02_rows), E(c02_starts), E(c02_seq), E(c02_chain), E(c03_small), E(c03_large), E(c04_tarjan), E(c04_reachable), E(c04_reverse))
