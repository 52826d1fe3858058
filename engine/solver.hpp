// Solver layer: path constraints, independence slicing, model reuse, query dispatch.
#pragma once
#include "z3++.h"
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace symx {

inline double nowSec()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, unknownSub = 0, guessHits = 0, ivDecided = 0;
    double time = 0, maxTime = 0;
};

struct ExprInfo {           // cached facts about an AST
    std::vector<unsigned> vars;   // sorted decl ids of uninterpreted constants
    bool nonlinear = false, hasBV = false, hasFP = false, hasReal = false;
};

enum class SatRes { Sat, Unsat, Unknown };

class SolverCtx {
public:
    z3::context ctx;
    SolverStats st;
    unsigned branchTimeoutMs = 3000, assertTimeoutMs = 20000;
    std::string dumpDir; unsigned dumpEvery = 0, dumpCount = 0;

    // --- per-path state ---
    struct Con { z3::expr e; const ExprInfo* info; };
    std::vector<Con> pc;
    std::unordered_map<unsigned, z3::expr> assign;   // decl id -> value; satisfies all of pc when every var of pc is present
    std::unordered_map<unsigned, z3::func_decl> declOf;

    SolverCtx()
    {
        Z3_global_param_set("rewriter.max_memory", "4294967295");
    }

    void resetPath()
    {
        pc.clear(); assign.clear(); bounds.clear(); quotients.clear();
        if (infoCache_.size() > 300000) { infoCache_.clear(); queryCache_.clear(); }
    }

    // ------------------------------------------------------------------
    const ExprInfo* info(const z3::expr& e)
    {
        auto it = infoCache_.find(Z3_get_ast_id(ctx, e));
        if (it != infoCache_.end()) return &it->second.second;
        ExprInfo r;
        if (e.is_app()) {
            auto d = e.decl();
            auto k = d.decl_kind();
            if (e.is_real()) r.hasReal = true;
            if (e.is_bv()) r.hasBV = true;
            if (e.is_fpa()) r.hasFP = true;
            if (e.num_args() == 0 && k == Z3_OP_UNINTERPRETED) {
                unsigned id = Z3_get_ast_id(ctx, d);
                declOf.emplace(id, d);
                keep_.push_back(d);
                r.vars.push_back(id);
            }
            unsigned nonconst = 0;
            for (unsigned i = 0; i < e.num_args(); ++i) {
                const ExprInfo* ci = info(e.arg(i));
                if (!ci->vars.empty()) ++nonconst;
                r.nonlinear |= ci->nonlinear; r.hasBV |= ci->hasBV; r.hasFP |= ci->hasFP; r.hasReal |= ci->hasReal;
                std::vector<unsigned> m;
                std::set_union(r.vars.begin(), r.vars.end(), ci->vars.begin(), ci->vars.end(), std::back_inserter(m));
                r.vars.swap(m);
            }
            if ((k == Z3_OP_MUL && nonconst > 1) || k == Z3_OP_DIV || k == Z3_OP_POWER) r.nonlinear = true;
        }
        auto p = infoCache_.emplace(Z3_get_ast_id(ctx, e), std::make_pair(e, std::move(r)));
        return &p.first->second.second;
    }

    void addConstraint(const z3::expr& e) { pc.push_back(Con{ e, info(e) }); learn(e, true); }

    // --- interval lemmas (all implied by pc; handed to the solver to shorten its proofs) ---
    struct Iv { double lo = -HUGE_VAL, hi = HUGE_VAL; };
    std::unordered_map<unsigned, Iv> bounds;                 // decl id -> interval
    static double dn(double x) { return std::isinf(x) || x == 0 ? x : x - std::fabs(x) * 1e-9; }
    static double upw(double x) { return std::isinf(x) || x == 0 ? x : x + std::fabs(x) * 1e-9; }
    static double num(const z3::expr& e) { return strtod(e.get_decimal_string(17).c_str(), nullptr); }
    void learn(const z3::expr& e, bool pos)
    {
        if (!e.is_app()) return;
        auto k = e.decl().decl_kind();
        if (k == Z3_OP_NOT) { learn(e.arg(0), !pos); return; }
        if (k == Z3_OP_AND && pos) { for (unsigned i = 0; i < e.num_args(); ++i) learn(e.arg(i), true); return; }
        if (k == Z3_OP_OR && !pos) { for (unsigned i = 0; i < e.num_args(); ++i) learn(e.arg(i), false); return; }
        if (e.num_args() != 2 || !e.arg(0).is_real()) return;
        z3::expr a = e.arg(0), b = e.arg(1);
        bool sw = false;
        if (a.is_numeral() && b.is_const() && !b.is_numeral()) { std::swap(a, b); sw = true; }
        if (!(a.is_const() && !a.is_numeral() && b.is_numeral()) || a.decl().decl_kind() != Z3_OP_UNINTERPRETED) return;
        bool le = k == Z3_OP_LE || k == Z3_OP_LT, ge = k == Z3_OP_GE || k == Z3_OP_GT;
        if (k == Z3_OP_EQ) { if (!pos) return; le = ge = true; }
        else { if (!le && !ge) return; if (sw) std::swap(le, ge); if (!pos) std::swap(le, ge); }
        Iv& iv = bounds[Z3_get_ast_id(ctx, a.decl())];
        const double c = num(b);
        if (le) iv.hi = std::min(iv.hi, upw(c));
        if (ge) iv.lo = std::max(iv.lo, dn(c));
    }
    static double mulz(double a, double b) { return a == 0 || b == 0 ? 0 : a * b; }
    Iv interval(const z3::expr& e, int depth = 0)
    {
        Iv r;
        if (!e.is_app() || depth > 60) return r;
        if (e.is_numeral()) { const double v = num(e); r.lo = dn(v); r.hi = upw(v); return r; }
        auto k = e.decl().decl_kind();
        if (k == Z3_OP_UNINTERPRETED && e.num_args() == 0) { auto it = bounds.find(Z3_get_ast_id(ctx, e.decl())); if (it != bounds.end()) r = it->second; return r; }
        if (k == Z3_OP_ADD) { r.lo = r.hi = 0; for (unsigned i = 0; i < e.num_args(); ++i) { Iv x = interval(e.arg(i), depth + 1); r.lo += x.lo; r.hi += x.hi; } r.lo = dn(r.lo); r.hi = upw(r.hi); return r; }
        if (k == Z3_OP_SUB && e.num_args() == 2) { Iv x = interval(e.arg(0), depth + 1), y = interval(e.arg(1), depth + 1); r.lo = dn(x.lo - y.hi); r.hi = upw(x.hi - y.lo); return r; }
        if (k == Z3_OP_UMINUS) { Iv x = interval(e.arg(0), depth + 1); r.lo = -x.hi; r.hi = -x.lo; return r; }
        if (k == Z3_OP_MUL) {
            r.lo = r.hi = 1;
            for (unsigned i = 0; i < e.num_args(); ++i) {
                Iv x = interval(e.arg(i), depth + 1);
                double c[4] = { mulz(r.lo, x.lo), mulz(r.lo, x.hi), mulz(r.hi, x.lo), mulz(r.hi, x.hi) };
                r.lo = dn(*std::min_element(c, c + 4)); r.hi = upw(*std::max_element(c, c + 4));
                if (std::isnan(r.lo) || std::isnan(r.hi)) return Iv{};
            }
            return r;
        }
        return r;
    }
    // Interval verdict on an order relation: 1 holds, 0 fails, -1 open.
    int ivVerdict(const z3::expr& e, bool pos = true)
    {
        if (!e.is_app()) return -1;
        auto k = e.decl().decl_kind();
        if (k == Z3_OP_NOT) { int r = ivVerdict(e.arg(0)); return r < 0 ? r : !r; }
        if (e.num_args() != 2 || !e.arg(0).is_real()) return -1;
        Iv a = interval(e.arg(0)), b = interval(e.arg(1));
        if (k == Z3_OP_GE || k == Z3_OP_GT) { std::swap(a, b); k = k == Z3_OP_GE ? Z3_OP_LE : Z3_OP_LT; }
        if (k == Z3_OP_LE || k == Z3_OP_LT) { if (a.hi < b.lo) return 1; if (a.lo > b.hi) return 0; return -1; }
        if (k == Z3_OP_EQ) { if (a.hi < b.lo || a.lo > b.hi) return 0; return -1; }
        return -1;
    }
    z3::expr dblReal(double v)
    {
        int ex; double m = std::frexp(v, &ex); long long mi = (long long) std::ldexp(m, 53); ex -= 53;
        z3::expr r = ctx.real_val(std::to_string(mi).c_str());
        z3::expr two = ctx.real_val("2");
        std::string p = "1"; // 2^|ex|
        z3::expr pw = ctx.real_val("1");
        for (int i = 0; i < std::abs(ex); ++i) pw = (pw * two).simplify();
        return (ex >= 0 ? r * pw : r / pw).simplify();
    }
    struct Mono { double c = 1; std::vector<unsigned> f; std::vector<z3::expr> fe; };
    bool monomials(const z3::expr& e, std::vector<Mono>& out)
    {
        if (e.is_app() && e.decl().decl_kind() == Z3_OP_ADD) { for (unsigned i = 0; i < e.num_args(); ++i) if (!monomials(e.arg(i), out)) return false; return true; }
        Mono m;
        std::vector<z3::expr> todo{ e };
        while (!todo.empty()) {
            z3::expr x = todo.back(); todo.pop_back();
            if (x.is_numeral()) { m.c *= num(x); continue; }
            if (!x.is_app()) return false;
            auto k = x.decl().decl_kind();
            if (k == Z3_OP_MUL) { for (unsigned i = 0; i < x.num_args(); ++i) todo.push_back(x.arg(i)); continue; }
            if (k == Z3_OP_UNINTERPRETED && x.num_args() == 0) { m.fe.push_back(x); continue; }
            return false;
        }
        std::sort(m.fe.begin(), m.fe.end(), [&](const z3::expr& a, const z3::expr& b) { return Z3_get_ast_id(ctx, a) < Z3_get_ast_id(ctx, b); });
        for (auto& x : m.fe) m.f.push_back(Z3_get_ast_id(ctx, x));
        out.push_back(m);
        return true;
    }
    Iv monoIv(const Mono& m)
    {
        Iv r; r.lo = r.hi = 1;
        auto mulIv = [&](const Iv& x) { double c[4] = { mulz(r.lo, x.lo), mulz(r.lo, x.hi), mulz(r.hi, x.lo), mulz(r.hi, x.hi) }; r.lo = dn(*std::min_element(c, c + 4)); r.hi = upw(*std::max_element(c, c + 4)); };
        mulIv(Iv{ dn(m.c), upw(m.c) });
        for (auto& x : m.fe) mulIv(interval(x));
        if (std::isnan(r.lo) || std::isnan(r.hi)) return Iv{};
        return r;
    }
    // Sum(a_i x_i)/Sum(a_i) with positive a_i lies between the smallest and the largest x_i.
    bool weighted(const z3::expr& n, const z3::expr& d, Iv& out)
    {
        std::vector<Mono> N, D;
        if (!monomials(n, N) || !monomials(d, D)) return false;
        Iv ds; ds.lo = ds.hi = 0;
        for (auto& m : D) { Iv v = monoIv(m); if (!(v.lo > 0) || !(m.c > 0)) return false; ds.lo += v.lo; ds.hi += v.hi; }
        ds.lo = dn(ds.lo); ds.hi = upw(ds.hi);
        std::vector<Iv> S(D.size(), Iv{ 0, 0 });
        Iv R; R.lo = R.hi = 0;
        for (auto& m : N) {
            int best = -1;
            for (unsigned k = 0; k < D.size(); ++k) if (std::includes(m.f.begin(), m.f.end(), D[k].f.begin(), D[k].f.end()) && (best < 0 || D[k].f.size() > D[best].f.size())) best = (int) k;
            if (best >= 0) {
                Mono q; q.c = m.c / D[best].c; unsigned j = 0;
                for (unsigned i = 0; i < m.f.size(); ++i) { if (j < D[best].f.size() && m.f[i] == D[best].f[j]) { ++j; continue; } q.fe.push_back(m.fe[i]); }
                Iv v = monoIv(q); S[best].lo += v.lo; S[best].hi += v.hi;
            } else { Iv v = monoIv(m); R.lo += v.lo; R.hi += v.hi; }
        }
        double lo = HUGE_VAL, hi = -HUGE_VAL;
        for (auto& v : S) { lo = std::min(lo, v.lo); hi = std::max(hi, v.hi); }
        lo += R.lo >= 0 ? (std::isinf(ds.hi) ? 0 : R.lo / ds.hi) : R.lo / ds.lo;
        hi += R.hi >= 0 ? R.hi / ds.lo : (std::isinf(ds.hi) ? 0 : R.hi / ds.hi);
        if (std::isnan(lo) || std::isnan(hi)) return false;
        out.lo = dn(lo); out.hi = upw(hi);
        return true;
    }

    // Find a model of pc && e by trying a few points of the input box (quotients follow from the inputs).
    std::vector<std::pair<z3::expr, std::pair<z3::expr, z3::expr>>> quotients;     // in order of definition
    uint64_t rng = 88172645463325252ull;
    double rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (double) (rng >> 11) / 9007199254740992.0; }
    bool guess(const z3::expr& e, std::unordered_map<unsigned, z3::expr>& out, int tries = 6)
    {
        const ExprInfo* ei = info(e);
        std::vector<unsigned> sl; slice(ei, sl);
        bool nl = ei->nonlinear;
        std::set<unsigned> vs(ei->vars.begin(), ei->vars.end());
        for (unsigned i : sl) { auto* x = pc[i].info; if (x->hasBV || x->hasFP) return false; nl |= x->nonlinear; vs.insert(x->vars.begin(), x->vars.end()); }
        if (!nl || ei->hasBV || ei->hasFP) return false;
        std::set<unsigned> qs; std::vector<unsigned> qi;
        for (unsigned k = 0; k < quotients.size(); ++k) { unsigned v = info(quotients[k].first)->vars[0]; if (vs.count(v)) { qs.insert(v); qi.push_back(k); } }
        for (int t = 0; t < tries; ++t) {
            z3::expr_vector from(ctx), to(ctx);
            std::unordered_map<unsigned, z3::expr> m;
            bool ok = true;
            for (unsigned v : vs) if (!qs.count(v)) {
                auto f = assign.find(v);
                z3::expr val(ctx);
                if (f != assign.end() && (t == 0 || (t & 1 && rnd() < 0.6))) val = f->second;
                else {
                    auto b = bounds.find(v);
                    double lo = -8, hi = 8, x;
                    if (b != bounds.end()) { lo = b->second.lo; hi = b->second.hi; if (std::isinf(lo)) lo = std::min(hi, 0.0) - 16; if (std::isinf(hi)) hi = std::max(lo, 0.0) + 16; }
                    if (hi <= lo + 1e-8 * std::fabs(lo)) x = (lo <= 0 && hi >= 0) ? 0 : (double) (float) lo;
                    else {
                        const double u = t < 2 ? 0.5 : t == 2 ? 0.03 : t == 3 ? 0.97 : 0.02 + 0.96 * rnd();
                        if (lo > 0 && t & 1) x = lo * std::pow(hi / lo, u); else if (hi < 0 && t & 1) x = hi * std::pow(lo / hi, u); else x = lo + (hi - lo) * u;
                        float fx = (float) x; uint32_t w; memcpy(&w, &fx, 4); w &= ~0x3fffu; memcpy(&fx, &w, 4); if (fx > lo && fx < hi) x = fx;
                    }
                    val = dblReal(x);
                }
                m.emplace(v, val); from.push_back(declOf.at(v)()); to.push_back(val);
            }
            for (unsigned k : qi) {
                z3::expr nn = z3::expr(quotients[k].second.first).substitute(from, to).simplify(), dd = z3::expr(quotients[k].second.second).substitute(from, to).simplify();
                z3::expr val = (nn / dd).simplify();
                if (!val.is_numeral() || !dd.is_numeral() || (dd == 0).simplify().is_true()) { ok = false; break; }
                unsigned v = info(quotients[k].first)->vars[0];
                m.emplace(v, val); from.push_back(quotients[k].first); to.push_back(val);
            }
            if (!ok) continue;
            if (!z3::expr(e).substitute(from, to).simplify().is_true()) continue;
            for (unsigned i : sl) if (!z3::expr(pc[i].e).substitute(from, to).simplify().is_true()) { ok = false; break; }
            if (!ok) continue;
            out = std::move(m); ++st.guessHits;
            return true;
        }
        return false;
    }
    // q*d == n was added: what follows for q from the intervals of n and d
    void quotientLemmas(const z3::expr& q, const z3::expr& n, const z3::expr& d)
    {
        Iv a = interval(n), b = interval(d);
        if (b.hi < 0) { std::swap(b.lo, b.hi); b.lo = -b.lo; b.hi = -b.hi; std::swap(a.lo, a.hi); a.lo = -a.lo; a.hi = -a.hi; }
        if (!(b.lo > 0)) return;
        double lo = a.lo >= 0 ? (std::isinf(b.hi) ? 0 : a.lo / b.hi) : a.lo / b.lo, hi = a.hi >= 0 ? a.hi / b.lo : (std::isinf(b.hi) ? 0 : a.hi / b.hi);
        lo = dn(lo); hi = upw(hi);
        Iv w; if (weighted(n, d, w)) { lo = std::max(lo, w.lo); hi = std::min(hi, w.hi); }
        if (!std::isinf(lo) && !std::isnan(lo)) addConstraint(q >= dblReal(lo));
        if (!std::isinf(hi) && !std::isnan(hi)) addConstraint(q <= dblReal(hi));
    }

    // Constraints of pc connected (through shared variables) to e.
    void slice(const ExprInfo* ei, std::vector<unsigned>& out)
    {
        std::unordered_set<unsigned> vs(ei->vars.begin(), ei->vars.end());
        std::vector<char> in(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (unsigned i = 0; i < pc.size(); ++i) {
                if (in[i]) continue;
                bool hit = false;
                for (unsigned v : pc[i].info->vars) if (vs.count(v)) { hit = true; break; }
                if (hit) { in[i] = 1; ch = true; for (unsigned v : pc[i].info->vars) vs.insert(v); }
            }
        }
        for (unsigned i = 0; i < pc.size(); ++i) if (in[i]) out.push_back(i);
    }

    // Evaluate a boolean under the current assignment.  1 true, 0 false, -1 not determined.
    int evalAssign(const z3::expr& e)
    {
        const ExprInfo* ei = info(e);
        z3::expr_vector from(ctx), to(ctx);
        for (unsigned v : ei->vars) {
            auto it = assign.find(v);
            if (it == assign.end()) return -1;
            from.push_back(declOf.at(v)()); to.push_back(it->second);
        }
        z3::expr r = z3::expr(e).substitute(from, to).simplify();
        if (r.is_true()) return 1;
        if (r.is_false()) return 0;
        return -1;
    }

    // The constraints over the variables of e alone often settle it (unsatisfiable with fewer constraints is unsatisfiable).
    bool cheapUnsat(const ExprInfo* ei, const z3::expr& e, const std::vector<unsigned>& sl)
    {
        std::vector<unsigned> sub; bool snl = ei->nonlinear;
        for (unsigned i : sl) if (std::includes(ei->vars.begin(), ei->vars.end(), pc[i].info->vars.begin(), pc[i].info->vars.end())) { sub.push_back(i); snl |= pc[i].info->nonlinear; }
        if (sub.size() >= sl.size()) return false;
        const double t0 = nowSec();
        ++st.queries;
        SatRes r1 = SatRes::Unknown;
        try {
            z3::solver s(ctx, snl ? "QF_NRA" : "QF_LRA");
            z3::params p(ctx); p.set("timeout", snl ? 100u : 1000u); s.set(p);
            for (unsigned i : sub) s.add(pc[i].e);
            s.add(e);
            auto r = s.check();
            r1 = r == z3::unsat ? SatRes::Unsat : r == z3::sat ? SatRes::Sat : SatRes::Unknown;
        } catch (z3::exception&) {}
        const double dt = nowSec() - t0; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
        if (r1 == SatRes::Unsat) { ++st.unsat; return true; }
        if (r1 == SatRes::Sat) ++st.sat; else ++st.unknownSub;
        return false;
    }
    bool cheapUnsat(const z3::expr& e)
    {
        const ExprInfo* ei = info(e);
        if (ei->hasBV || ei->hasFP) return false;
        std::vector<unsigned> sl; slice(ei, sl);
        bool nl = ei->nonlinear; for (unsigned i : sl) { if (pc[i].info->hasBV || pc[i].info->hasFP) return false; nl |= pc[i].info->nonlinear; }
        return nl && cheapUnsat(ei, e, sl);
    }
    bool skipCheap = false;

    // Is pc && e satisfiable?  If Sat and take, the assignment is updated so that it satisfies pc-slice && e.
    SatRes check(const z3::expr& e, unsigned timeoutMs, std::unordered_map<unsigned, z3::expr>* modelOut)
    {
        const ExprInfo* ei = info(e);
        std::vector<unsigned> sl;
        slice(ei, sl);
        bool nl = ei->nonlinear, bv = ei->hasBV, fp = ei->hasFP, re = ei->hasReal;
        std::vector<unsigned> key; key.reserve(sl.size() + 1);
        for (unsigned i : sl) {
            auto* x = pc[i].info;
            nl |= x->nonlinear; bv |= x->hasBV; fp |= x->hasFP; re |= x->hasReal;
            key.push_back(Z3_get_ast_id(ctx, pc[i].e));
        }
        std::sort(key.begin(), key.end());
        key.push_back(Z3_get_ast_id(ctx, e));
        auto qc = queryCache_.find(key);
        if (qc != queryCache_.end()) {
            ++st.cacheHits;
            if (qc->second.res == SatRes::Sat && modelOut) *modelOut = qc->second.model;
            return qc->second.res;
        }
        if (nl && !bv && !fp && !skipCheap) {
            if (cheapUnsat(ei, e, sl)) {
                z3::expr_vector kp(ctx); for (unsigned i : sl) kp.push_back(pc[i].e); kp.push_back(e);
                queryCache_.emplace(std::move(key), QC{ SatRes::Unsat, {}, kp });
                return SatRes::Unsat;
            }
            std::unordered_map<unsigned, z3::expr> gm;
            if (guess(e, gm)) { if (modelOut) *modelOut = std::move(gm); return SatRes::Sat; }
        }
        z3::expr_vector as(ctx);
        for (unsigned i : sl) as.push_back(pc[i].e);
        as.push_back(e);
        const double t0 = nowSec();
        ++st.queries;
        SatRes res = SatRes::Unknown;
        std::unordered_map<unsigned, z3::expr> mdl;
        const char* logic = fp ? nullptr : (bv && re) ? nullptr : bv ? "QF_BV" : nl ? "QF_NRA" : re ? "QF_LRA" : nullptr;
        for (int attempt = 0; attempt < 3 && res == SatRes::Unknown; ++attempt) {
            try {
                z3::params p(ctx);
                unsigned tmo = timeoutMs;
                if (nl && attempt == 0) tmo = std::max(500u, timeoutMs / 3);
                p.set("timeout", tmo);
                z3::solver s = attempt == 0 ? (logic ? z3::solver(ctx, logic) : z3::solver(ctx))
                             : attempt == 1 ? (nl && !bv && !fp ? (z3::tactic(ctx, "simplify") & z3::tactic(ctx, "propagate-values") & z3::tactic(ctx, "solve-eqs") & z3::tactic(ctx, "qfnra-nlsat")).mk_solver() : z3::solver(ctx))
                             : z3::solver(ctx, z3::solver::simple());
                s.set(p);
                for (unsigned i = 0; i < as.size(); ++i) s.add(as[i]);
                auto r = s.check();
                if (r == z3::sat) {
                    res = SatRes::Sat;
                    z3::model m = s.get_model();
                    std::set<unsigned> vs(ei->vars.begin(), ei->vars.end());
                    for (unsigned i : sl) vs.insert(pc[i].info->vars.begin(), pc[i].info->vars.end());
                    for (unsigned v : vs) mdl.emplace(v, m.eval(declOf.at(v)(), true));
                } else if (r == z3::unsat) res = SatRes::Unsat;
            } catch (z3::exception& ex) {
                // an exception is never success: try the next configuration
            }
            if (!nl && !fp) { if (attempt >= 1) break; }
        }
        const double dt = nowSec() - t0;
        st.time += dt; st.maxTime = std::max(st.maxTime, dt);
        if (res == SatRes::Sat) ++st.sat; else if (res == SatRes::Unsat) ++st.unsat; else ++st.unknown;
        if (!dumpDir.empty() && dumpEvery && ((st.queries % dumpEvery) == 0 || res == SatRes::Unknown)) dump(as, res);
        if (queryCache_.size() > 20000) { queryCache_.clear(); }
        QC q{ res, {}, as };
        q.model = mdl;
        queryCache_.emplace(std::move(key), std::move(q));
        if (res == SatRes::Sat && modelOut) *modelOut = std::move(mdl);
        return res;
    }

    void take(std::unordered_map<unsigned, z3::expr>&& m)
    {
        for (auto& kv : m) {
            auto it = assign.find(kv.first);
            if (it == assign.end()) assign.emplace(kv.first, kv.second); else it->second = kv.second;
        }
    }

private:
    struct QC { SatRes res; std::unordered_map<unsigned, z3::expr> model; z3::expr_vector keep; };
    struct VH { size_t operator()(const std::vector<unsigned>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
    std::unordered_map<unsigned, std::pair<z3::expr, ExprInfo>> infoCache_;
    std::unordered_map<std::vector<unsigned>, QC, VH> queryCache_;
    std::vector<z3::func_decl> keep_;

    void dump(const z3::expr_vector& as, SatRes r)
    {
        z3::solver s(ctx);
        for (unsigned i = 0; i < as.size(); ++i) s.add(as[i]);
        char fn[512];
        snprintf(fn, sizeof fn, "%s/q_%d_%u_%s.smt2", dumpDir.c_str(), (int) getpid(), dumpCount++, r == SatRes::Sat ? "sat" : r == SatRes::Unsat ? "unsat" : "unknown");
        if (FILE* f = fopen(fn, "w")) { fputs(s.to_smt2().c_str(), f); fclose(f); }
    }
};

} // namespace symx
