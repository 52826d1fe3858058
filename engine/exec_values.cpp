#include "exec.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
using namespace llvm;
namespace symx {

static inline uint64_t maskw(uint64_t x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }
static inline int64_t sx(uint64_t x, unsigned w) { return w >= 64 ? (int64_t) x : (int64_t) (x << (64 - w)) >> (64 - w); }

// ---------------------------------------------------------------- construction
const Sym* Exec::mk(Sym::Kind k, unsigned w, const z3::expr& e) { pool.push_back(Sym{ k, w, e }); return &pool.back(); }

z3::expr Exec::dblConst(double x)
{
    uint64_t k = u(x);
    auto it = dblCache.find(k);
    if (it != dblCache.end()) return it->second;
    int ex; double m = std::frexp(x, &ex);
    long long im = (long long) std::ldexp(m, 53); ex -= 53;
    while (im && !(im & 1)) { im /= 2; ++ex; }
    z3::expr e = S.ctx.real_val(std::to_string(im).c_str());
    if (im != 0 && ex != 0) {
        z3::expr p = S.ctx.int_val(1);
        std::string s = "1";
        // 2^|ex| as a decimal string
        int n = ex < 0 ? -ex : ex;
        for (int i = 0; i < n; ++i) { int carry = 0; for (int j = (int) s.size() - 1; j >= 0; --j) { int v = (s[j] - '0') * 2 + carry; s[j] = '0' + v % 10; carry = v / 10; } if (carry) s.insert(s.begin(), '0' + carry); }
        z3::expr pw = S.ctx.real_val(s.c_str());
        e = (ex > 0 ? e * pw : e / pw).simplify();
    }
    dblCache.emplace(k, e);
    return e;
}

z3::expr Exec::bv(const Val& v, unsigned w)
{
    if (!v.s) return S.ctx.bv_val((uint64_t) v.c, w);
    switch (v.s->kind) {
    case Sym::BV: if (v.s->w == w) return v.s->e;
        if (v.s->w > w) return v.s->e.extract(w - 1, 0);
        return z3::zext(v.s->e, w - v.s->w);
    case Sym::BOOL: return z3::ite(v.s->e, S.ctx.bv_val(1, w), S.ctx.bv_val(0, w));
    case Sym::FP: { z3::expr r(S.ctx, Z3_mk_fpa_to_ieee_bv(S.ctx, v.s->e)); return r; }
    default: unsupported("integer view of a real-valued term");
    }
}
z3::expr Exec::boolean(const Val& v)
{
    if (!v.s) return S.ctx.bool_val((v.c & 1) != 0);
    if (v.s->kind == Sym::BOOL) return v.s->e;
    if (v.s->kind == Sym::BV) return v.s->e.extract(0, 0) == S.ctx.bv_val(1, 1);
    unsupported("boolean view of a real-valued term");
}
z3::expr Exec::real(const Val& v)
{
    if (!v.s) { double x = d(v.c); if (!std::isfinite(x)) unsupported("non-finite constant in a real term"); return dblConst(x); }
    if (v.s->kind == Sym::REAL) return v.s->e;
    unsupported("real view of a bit-vector term");
}
z3::expr Exec::fpa(const Val& v)
{
    if (!v.s) { z3::sort fs = S.ctx.fpa_sort<64>(); return z3::expr(S.ctx, Z3_mk_fpa_numeral_double(S.ctx, d(v.c), fs)); }
    if (v.s->kind == Sym::FP) return v.s->e;
    if (v.s->kind == Sym::BV && v.s->w == 64) { z3::sort fs = S.ctx.fpa_sort<64>(); return z3::expr(S.ctx, Z3_mk_fpa_to_fp_bv(S.ctx, v.s->e, fs)); }
    unsupported("floating-point view");
}
Val Exec::fromBV(const z3::expr& e0, unsigned w)
{
    z3::expr e = e0.simplify();
    if (w <= 64 && e.is_numeral()) return Val{ maskw(e.get_numeral_uint64(), w) };
    return Val{ 0, mk(Sym::BV, w, e) };
}
Val Exec::fromBool(const z3::expr& e0)
{
    z3::expr e = e0.simplify();
    if (e.is_true()) return Val{ 1 };
    if (e.is_false()) return Val{ 0 };
    return Val{ 0, mk(Sym::BOOL, 1, e) };
}
// Coefficients of more than about 200 bits in all are rounded to 128 significant bits (iterations would let them grow without bound).
static bool roundNumeral(z3::context& ctx, const z3::expr& e, z3::expr& out)
{
    int64_t a, b;
    if (Z3_get_numeral_rational_int64(ctx, e, &a, &b)) return false;
    std::string s = Z3_get_numeral_string(ctx, e);
    if (s.size() < 120) return false;
    namespace mp = boost::multiprecision;
    auto sl = s.find('/');
    bool neg = s[0] == '-';
    mp::cpp_int n(neg ? s.substr(1, sl == std::string::npos ? sl : sl - 1) : s.substr(0, sl)), q = sl == std::string::npos ? mp::cpp_int(1) : mp::cpp_int(s.substr(sl + 1));
    if (n == 0) return false;
    int sh = 128 + (int) mp::msb(q) - (int) mp::msb(n);
    mp::cpp_int m = sh >= 0 ? mp::cpp_int(n << sh) / q : n / (q << -sh);
    while (sh > 0 && (m & 1) == 0) { m >>= 1; --sh; }
    std::string t = (neg ? "-" : "") + (sh >= 0 ? m.str() + "/" + mp::cpp_int(mp::cpp_int(1) << sh).str() : mp::cpp_int(m << -sh).str());
    out = ctx.real_val(t.c_str());
    return true;
}
z3::expr Exec::shrink(const z3::expr& e)
{
    if (!e.is_app()) return e;
    z3::expr r(S.ctx);
    if (e.is_numeral()) { if (roundNumeral(S.ctx, e, r)) { ++rounded; return r; } return e; }
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_ADD || (k == Z3_OP_MUL && e.arg(0).is_numeral())) {
        bool ch = false; z3::expr_vector v(S.ctx);
        const unsigned n = e.num_args();
        for (unsigned i = 0; i < n; ++i) { z3::expr x = e.arg(i), y = k == Z3_OP_MUL && i ? x : shrink(x); if (!z3::eq(x, y)) ch = true; v.push_back(y); }
        if (!ch) return e;
        r = v[0]; for (unsigned i = 1; i < n; ++i) r = k == Z3_OP_ADD ? r + v[i] : r * v[i];
        return r.simplify();
    }
    return e;
}
Val Exec::fromReal(const z3::expr& e0)
{
    z3::expr e = shrink(e0.simplify());
    if (e.is_numeral()) {
        // exactly representable numerals fold back to concrete doubles
        std::string s = Z3_get_numeral_string(S.ctx, e);
        auto sl = s.find('/');
        if (s.size() < 40) {
            double n = strtod(s.substr(0, sl).c_str(), nullptr), q = sl == std::string::npos ? 1 : strtod(s.substr(sl + 1).c_str(), nullptr);
            double r = n / q;
            if (std::isfinite(r) && z3::eq(dblConst(r), e)) return Val{ u(r) };
        }
    }
    return Val{ 0, mk(Sym::REAL, 64, e) };
}
Val Exec::fromFP(const z3::expr& e0)
{
    z3::expr e = e0.simplify();
    z3::expr b = z3::expr(S.ctx, Z3_mk_fpa_to_ieee_bv(S.ctx, e)).simplify();
    if (b.is_numeral()) return Val{ b.get_numeral_uint64() };
    return Val{ 0, mk(Sym::FP, 64, e) };
}

// ---------------------------------------------------------------- decisions
std::string Exec::where()
{
    std::string r; int n = 0;
    for (int i = (int) stack.size() - 1; i >= 0 && n < 6; --i, ++n) {
        auto& fr = stack[i];
        std::string nm = llvm::demangle(fr.f->F->getName().str());
        auto p = nm.find('('); if (p != std::string::npos && p > 0) nm = nm.substr(0, p);
        if (nm.size() > 70) nm = nm.substr(0, 70);
        unsigned pc = fr.pc ? fr.pc - 1 : 0;
        if (i == (int) stack.size() - 1 && pc < fr.f->code.size()) {}
        r += (n ? " < " : "") + nm;
        if (pc < fr.f->code.size()) if (auto& dbg = fr.f->code[pc].I->getDebugLoc()) {
            auto* sc = cast<DIScope>(dbg.getScope());
            std::string fn = sc->getFilename().str(); auto sl = fn.rfind('/'); if (sl != std::string::npos) fn = fn.substr(sl + 1);
            r += " " + fn + ":" + std::to_string(dbg.getLine());
        }
    }
    return r;
}

void Exec::pushAlt(const Decision& dd)
{
    Prefix p(trace.begin(), trace.end());
    p.push_back(dd);
    newJobs_->push_back(std::move(p));
    ++forks;
}

bool Exec::hasUndef(const z3::expr& e)
{
    if (!undefCtr) return false;
    z3::expr_vector from(S.ctx), to(S.ctx);
    for (unsigned v : S.info(e)->vars) if (undefVars.count(v)) {
        z3::expr x = S.declOf.at(v)();
        from.push_back(x);
        if (x.is_bv()) to.push_back(S.ctx.bv_val(0, x.get_sort().bv_size()));
        else return true;
    }
    if (from.empty()) return false;
    // Bits of a word that was written in parts are defined: the value must depend on the undefined ones.
    z3::expr f = z3::expr(e).substitute(from, to);
    return S.check((e != f).simplify(), opt.branchTimeoutMs, nullptr) != SatRes::Unsat;
}

bool Exec::branch(const z3::expr& c0, const char* what)
{
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    ++decisions;
    if (trace.size() < prefix_->size()) {
        Decision dd = (*prefix_)[trace.size()];
        if (dd.t != Decision::Branch) throw PathEnd{ PathEnd::Unsupported, "replay divergence" };
        trace.push_back(dd);
        if (!dd.forced) S.addConstraint(dd.choice ? c : !c);
        return dd.choice;
    }
    if (trace.size() > opt.maxDecisions) throw PathEnd{ PathEnd::Limit, "decision limit" };
    if (nowSec() - pathStart > opt.pathTime || nowSec() > deadline) throw PathEnd{ PathEnd::Limit, "path time" };
    if (hasUndef(c)) { violation("uninit", std::string("branch on uninitialised memory (") + what + ")", "", nullptr); }
    if (!opt.fpMode) {
        int iv = S.ivVerdict(c);
        if (iv >= 0) { ++S.st.ivDecided; trace.push_back(Decision{ Decision::Branch, iv == 1, true, 0 }); return iv == 1; }
    }
    int known = S.evalAssign(c);
    SatRes rt, rf;
    std::unordered_map<unsigned, z3::expr> mt, mf;
    if (known == 1) { rt = SatRes::Sat; ++S.st.modelHits; rf = S.check(!c, opt.branchTimeoutMs, &mf); }
    else if (known == 0) { rf = SatRes::Sat; ++S.st.modelHits; rt = S.check(c, opt.branchTimeoutMs, &mt); }
    else {
        // pc is satisfiable by invariant (or unknown): if one side is impossible the other is possible
        if (S.cheapUnsat(!c)) { rf = SatRes::Unsat; rt = SatRes::Sat; }
        else if (S.cheapUnsat(c)) { rt = SatRes::Unsat; rf = SatRes::Sat; }
        else {
            rt = S.check(c, opt.branchTimeoutMs, &mt);
            if (rt == SatRes::Unsat) rf = SatRes::Sat;
            else rf = S.check(!c, opt.branchTimeoutMs, &mf);
        }
    }
    if (rt == SatRes::Unknown || rf == SatRes::Unknown) ++branchUnknown;
    bool choice, forced = false;
    if (rt == SatRes::Unsat) { choice = false; forced = true; }
    else if (rf == SatRes::Unsat) { choice = true; forced = true; }
    else if (known >= 0) choice = known == 1;
    else choice = rt == SatRes::Sat || rf != SatRes::Sat;
    Decision dd{ Decision::Branch, choice, forced, 0 };
    if (!forced) {
        Decision alt{ Decision::Branch, !choice, false, 0 };
        pushAlt(alt);
        S.addConstraint(choice ? c : !c);
        if (known < 0 || known != (int) choice) { if (choice) S.take(std::move(mt)); else S.take(std::move(mf)); }
    } else if (known < 0 && choice && rt == SatRes::Sat) S.take(std::move(mt));
    trace.push_back(dd);
    return choice;
}
bool Exec::branchV(const Val& v, const char* what)
{
    if (!v.s) return v.c & 1;
    return branch(boolean(v), what);
}

uint64_t Exec::concretize(const Val& v, unsigned w, const char* what)
{
    if (!v.s) return v.c;
    if (v.s->kind == Sym::BOOL) return branch(v.s->e, what);
    if (v.s->kind != Sym::BV) unsupported(std::string("concretising a real-valued term: ") + what);
    z3::expr e = bv(v, w).simplify();
    if (e.is_numeral()) return e.get_numeral_uint64();
    if (hasUndef(e)) violation("uninit", std::string("uninitialised value used as ") + what, "", nullptr);
    for (;;) {
        ++decisions;
        if (trace.size() < prefix_->size()) {
            Decision dd = (*prefix_)[trace.size()];
            if (dd.t != Decision::Eq) throw PathEnd{ PathEnd::Unsupported, "replay divergence" };
            trace.push_back(dd);
            z3::expr eq = e == S.ctx.bv_val(dd.val, w);
            if (!dd.forced) S.addConstraint(dd.choice ? eq : !eq);
            if (dd.choice) return dd.val;
            continue;
        }
        if (trace.size() > opt.maxDecisions) throw PathEnd{ PathEnd::Limit, "decision limit" };
        if (nowSec() - pathStart > opt.pathTime || nowSec() > deadline) throw PathEnd{ PathEnd::Limit, "path time" };
        bool have = true;
        for (unsigned x : S.info(e)->vars) if (!S.assign.count(x)) have = false;
        if (!have) {
            std::unordered_map<unsigned, z3::expr> m2;
            // a trivial query on e's variables: use e <= max, which the simplifier does not fold away
            auto r = S.check(z3::ule(e, S.ctx.bv_val((uint64_t) -1, w)), opt.branchTimeoutMs, &m2);
            if (r == SatRes::Unsat) throw PathEnd{ PathEnd::Infeasible, "" };
            if (r == SatRes::Unknown) unsupported("solver gave no value for a symbolic address/size");
            S.take(std::move(m2));
        }
        z3::expr_vector from(S.ctx), to(S.ctx);
        for (unsigned x : S.info(e)->vars) { from.push_back(S.declOf.at(x)()); to.push_back(S.assign.at(x)); }
        z3::expr ev = z3::expr(e).substitute(from, to).simplify();
        uint64_t val = ev.get_numeral_uint64();
        z3::expr eq = e == S.ctx.bv_val(val, w);
        std::unordered_map<unsigned, z3::expr> mo;
        SatRes other = S.check(!eq, opt.branchTimeoutMs, &mo);
        Decision dd{ Decision::Eq, true, other == SatRes::Unsat, val };
        if (other != SatRes::Unsat) {
            pushAlt(Decision{ Decision::Eq, false, false, val });
            S.addConstraint(eq);
        }
        trace.push_back(dd);
        return val;
    }
}

void Exec::assume(const z3::expr& c0)
{
    z3::expr c = c0.simplify();
    if (c.is_true()) return;
    if (c.is_false()) throw PathEnd{ PathEnd::Assume, "" };
    if (trace.size() < prefix_->size()) { S.addConstraint(c); return; }    // known feasible
    int k = S.evalAssign(c);
    if (k == 1) { S.addConstraint(c); return; }
    std::unordered_map<unsigned, z3::expr> m;
    auto r = S.check(c, opt.branchTimeoutMs, &m);
    if (r == SatRes::Unsat) throw PathEnd{ PathEnd::Assume, "" };
    if (r == SatRes::Unknown) ++branchUnknown;
    S.addConstraint(c);
    if (r == SatRes::Sat) S.take(std::move(m));
}

// Interval arithmetic on the expanded difference settles the margin.
bool Exec::ivHolds(const z3::expr& e)
{
    if (!e.is_app()) return false;
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_TRUE) return true;
    if (k == Z3_OP_AND) { for (unsigned i = 0; i < e.num_args(); ++i) if (!ivHolds(e.arg(i))) return false; return true; }
    if (e.num_args() != 2 || !e.arg(0).is_real()) return false;
    if (k == Z3_OP_LE || k == Z3_OP_LT) return S.interval(canon(e.arg(0) - e.arg(1))).hi < 0;
    if (k == Z3_OP_GE || k == Z3_OP_GT) return S.interval(canon(e.arg(0) - e.arg(1))).lo > 0;
    return false;
}
void Exec::checkAssert(const z3::expr& good0, const std::string& label, const z3::expr* tol)
{
    ++asserts; ++assertsByLabel[label];
    z3::expr good = good0.simplify();
    if (good.is_true()) { if (!good0.is_true()) ++assertsFolded; return; }
    if (trace.size() < prefix_->size()) return;         // already decided by the parent path, under weaker constraints
    ++assertsSym;
    std::unordered_map<unsigned, z3::expr> m;
    if (tol) {
        // Exact equality first, then the margin.
        if (!good.is_false()) {
            auto r = S.check(!good, std::max(1000u, opt.assertTimeoutMs / 4), &m);
            if (r == SatRes::Unsat) { ++assertsDischarged; return; }
        }
        z3::expr t = tol->simplify();
        if (t.is_true()) { ++assertsDischarged; ++tolUsed; return; }
        if (S.info(t)->nonlinear && ivHolds(*tol)) { ++assertsDischarged; ++tolUsed; ++S.st.ivDecided; return; }
        auto r = S.check(!t, opt.assertTimeoutMs, &m);
        if (r == SatRes::Unsat) { ++assertsDischarged; ++tolUsed; return; }
        if (r == SatRes::Unknown) { ++assertsUnknown; ++unknownByLabel[label]; return; }
        S.take(std::move(m));
        z3::expr bad = !t;
        violation("assert", label, "", &bad);
        return;
    }
    auto r = S.check(!good, opt.assertTimeoutMs, &m);
    if (r == SatRes::Unsat) { ++assertsDischarged; return; }
    if (r == SatRes::Unknown) { ++assertsUnknown; ++unknownByLabel[label]; return; }
    S.take(std::move(m));
    z3::expr bad = !good;
    violation("assert", label, "", &bad);
}

bool Exec::fillModel()
{
    // Make the assignment total on the path constraints and the inputs.
    for (auto& c : S.pc) {
        int k = S.evalAssign(c.e);
        if (k == 1) continue;
        std::unordered_map<unsigned, z3::expr> m;
        auto r = S.check(c.e, opt.assertTimeoutMs, &m);
        if (r != SatRes::Sat) return false;
        S.take(std::move(m));
    }
    return true;
}

static std::string valueString(z3::context& ctx, const z3::expr& v)
{
    if (v.is_bool()) return v.is_true() ? "1" : "0";
    if (v.is_bv()) { std::string s = Z3_get_numeral_string(ctx, v); return s; }
    if (v.is_fpa()) {
        z3::expr b = z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, v)).simplify();
        if (b.is_numeral()) { uint64_t c = b.get_numeral_uint64(); double x; memcpy(&x, &c, 8); char t[64]; snprintf(t, sizeof t, "%.17g", x); return t; }
        return "0";
    }
    if (v.is_algebraic()) return v.get_decimal_string(40);
    if (v.is_numeral()) return Z3_get_numeral_string(ctx, v);
    return "0";
}

std::map<std::string, std::string> Exec::modelStrings()
{
    std::map<std::string, std::string> r;
    for (auto& in : inputs) {
        unsigned id = Z3_get_ast_id(S.ctx, in.e.decl());
        S.info(in.e);
        auto it = S.assign.find(id);
        std::string s = it == S.assign.end() ? "0" : valueString(S.ctx, it->second);
        if (in.type == 'i' && it != S.assign.end() && it->second.is_bv() && it->second.get_sort().bv_size() == 32)
            s = std::to_string((int32_t) it->second.get_numeral_uint64());
        r[in.name] = s;
    }
    return r;
}

std::string Exec::evalObserved(const Val& v, char type)
{
    if (!v.s) { char t[64]; if (type == 'd') snprintf(t, sizeof t, "%.17g", d(v.c)); else snprintf(t, sizeof t, "%lld", (long long) v.c); return t; }
    z3::expr_vector from(S.ctx), to(S.ctx);
    for (unsigned x : S.info(v.s->e)->vars) {
        auto it = S.assign.find(x);
        if (it == S.assign.end()) return "?";
        from.push_back(S.declOf.at(x)()); to.push_back(it->second);
    }
    z3::expr e = z3::expr(v.s->e).substitute(from, to).simplify();
    std::string s = valueString(S.ctx, e);
    if (type == 'i' && e.is_bv()) s = std::to_string((long long) e.get_numeral_uint64());
    return s;
}

void Exec::violation(const std::string& kind, const std::string& label, const std::string& detail, const z3::expr* bad)
{
    if (bad) S.addConstraint(*bad);
    bool ok = fillModel();
    Violation v{ label, kind, where(), detail + (ok ? "" : " [model incomplete]"), {} };
    for (auto& kv : modelStrings()) v.inputs.push_back(kv);
    violations.push_back(std::move(v));
    throw PathEnd{ PathEnd::Violation, label };
}

// ---------------------------------------------------------------- memory
Val Exec::loadByte(uint64_t a)
{
    if (M.anySym(a, 1)) {
        for (uint64_t p = a - 7; p <= a; ++p) {
            auto it = M.cells.find(p);
            if (it == M.cells.end() || p + it->second.size <= a) continue;
            const Sym* s = it->second.s;
            if (s->kind == Sym::REAL || s->kind == Sym::LD) unsupported("byte access to a real-valued term");
            unsigned o = (a - p) * 8;
            z3::expr e = bv(Val{ 0, s }, it->second.size * 8);
            return fromBV(e.extract(o + 7, o), 8);
        }
    }
    if (M.inArena(a) && !M.byteInit(a)) {
        z3::expr e = S.ctx.bv_const(("undef!" + std::to_string(undefCtr++)).c_str(), 8);
        undefVars.insert(S.info(e)->vars[0]);
        return Val{ 0, mk(Sym::BV, 8, e) };
    }
    return Val{ *(uint8_t*) a };
}

Val Exec::loadBits(uint64_t a, unsigned n, Type* t)
{
    bool in = M.checkAccess(a, n, false);
    if (in) {
        if (M.anySym(a, n)) {
            auto it = M.cells.find(a);
            if (it != M.cells.end() && it->second.size == n) return Val{ 0, it->second.s };
            bool mixed = false;
            for (uint64_t p = a - 7; p < a + n && !mixed; ++p) { auto c = M.cells.find(p); if (c != M.cells.end() && p + c->second.size > a) mixed = true; }
            if (mixed) goto bytes;
        }
        if (!M.isInit(a, n)) {
            bool any = false;
            for (unsigned i = 0; i < n; ++i) if (M.byteInit(a + i)) any = true;
            if (!any && t && t->isDoubleTy()) {
                std::string nm = "undef!" + std::to_string(undefCtr++);
                z3::expr e = opt.fpMode ? S.ctx.fpa_const<64>(nm.c_str()) : S.ctx.real_const(nm.c_str());
                undefVars.insert(S.info(e)->vars[0]);
                const Sym* s = mk(opt.fpMode ? Sym::FP : Sym::REAL, 64, e);
                return Val{ 0, s };
            }
            goto bytes;
        }
    }
    {
        uint64_t c = 0; memcpy(&c, (void*) a, n); return Val{ c };
    }
bytes:
    {
        std::vector<Val> bs; bool sym = false;
        for (unsigned i = 0; i < n; ++i) { bs.push_back(loadByte(a + i)); if (bs.back().s) sym = true; }
        if (!sym) { uint64_t c = 0; for (unsigned i = 0; i < n; ++i) c |= bs[i].c << (8 * i); return Val{ c }; }
        z3::expr e = bv(bs[n - 1], 8);
        for (int i = (int) n - 2; i >= 0; --i) e = z3::concat(e, bv(bs[i], 8));
        return fromBV(e, n * 8);
    }
}

void Exec::splitCell(uint64_t p, Memory::Cell c, uint64_t lo, uint64_t hi)
{
    // replace the cell by byte cells outside [lo,hi)
    std::vector<std::pair<uint64_t, Val>> keep;
    for (uint64_t q = p; q < p + c.size; ++q) if (q < lo || q >= hi) {
        if (c.s->kind == Sym::REAL || c.s->kind == Sym::LD) { 
            // the remaining bytes of a partially overwritten real have no meaning of their own
            keep.push_back({ q, Val{ 0, nullptr } }); M.markInit(q, 1, 0); continue; }
        keep.push_back({ q, loadByte(q) });
    }
    M.cells.erase(p);
    for (auto& k : keep) {
        if (k.second.s) M.putCell(k.first, k.second.s, 1);
        else if (c.s->kind != Sym::REAL && c.s->kind != Sym::LD) { *(uint8_t*) k.first = (uint8_t) k.second.c; M.markInit(k.first, 1); }
    }
}

void Exec::storeBits(uint64_t a, unsigned n, const Val& v)
{
    bool in = M.checkAccess(a, n, true);
    if (in && M.anySym(a, n)) M.clearCells(a, n, [&](uint64_t p, Memory::Cell c) { splitCell(p, c, a, a + n); });
    if (!v.s) { memcpy((void*) a, &v.c, n); if (in) M.markInit(a, n); return; }
    if (!in) unsupported("symbolic store to native memory");
    M.putCell(a, v.s, n);
}

Val Exec::loadLeaf(uint64_t a, Type* t)
{
    if (t->isX86_FP80Ty()) {
        M.checkAccess(a, 10, false);
        if (M.anySym(a, 10)) { auto it = M.cells.find(a); if (it != M.cells.end() && it->second.size == 8 && it->second.s->kind == Sym::REAL) return Val{ 0, it->second.s }; unsupported("symbolic long double"); }
        pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), 0 });
        memcpy(&pool.back().ld, (void*) a, 10);
        return Val{ 0, &pool.back() };
    }
    unsigned bits = t->isPointerTy() ? 64 : (unsigned) dl.getTypeSizeInBits(t);
    unsigned n = (bits + 7) / 8;
    if (n > 8) {
        if (n == 16) {
            Val lo = loadBits(a, 8, nullptr), hi = loadBits(a + 8, 8, nullptr);
            return fromBV(z3::concat(bv(hi, 64), bv(lo, 64)), 128);
        }
        unsupported("wide load");
    }
    Val v = loadBits(a, n, t);
    if (bits < n * 8) { if (v.s) { if (bits == 1) return fromBool(boolean(v)); return fromBV(bv(v, bits), bits); } v.c = maskw(v.c, bits); }
    if (opt.fpMode && t->isDoubleTy() && v.s && v.s->kind == Sym::BV) return fromFP(fpa(v));
    return v;
}
void Exec::storeLeaf(uint64_t a, Type* t, const Val& v)
{
    if (t->isX86_FP80Ty()) {
        bool in = M.checkAccess(a, 10, true);
        if (in) { M.clearCells(a, 10, [&](uint64_t p, Memory::Cell c) { splitCell(p, c, a, a + 10); }); M.markInit(a, 16 <= 10 ? 16 : 10); }
        if (v.s && v.s->kind == Sym::REAL) { if (!in) unsupported("symbolic store to native memory"); M.putCell(a, v.s, 8); return; }
        long double x = v.s ? v.s->ld : 0; memcpy((void*) a, &x, 10);
        return;
    }
    unsigned bits = t->isPointerTy() ? 64 : (unsigned) dl.getTypeSizeInBits(t);
    unsigned n = (bits + 7) / 8;
    if (n > 8) {
        if (n == 16) { storeBits(a, 8, fromBV(bv(v, 128).extract(63, 0), 64)); storeBits(a + 8, 8, fromBV(bv(v, 128).extract(127, 64), 64)); return; }
        unsupported("wide store");
    }
    if (v.s && bits < n * 8) { storeBits(a, n, fromBV(bv(v, n * 8), n * 8)); return; }
    if (v.s && v.s->kind == Sym::BOOL && n >= 1) { storeBits(a, n, fromBV(bv(v, n * 8), n * 8)); return; }
    storeBits(a, n, v);
}

void Exec::copyMem(uint64_t dst, uint64_t src, uint64_t n)
{
    if (n == 0) return;
    bool si = M.checkAccess(src, n, false), di = M.checkAccess(dst, n, true);
    std::vector<std::pair<uint64_t, Memory::Cell>> cs;
    if (si && M.anySym(src, n)) {
        for (uint64_t p = src - 7; p < src; ++p) { auto it = M.cells.find(p); if (it != M.cells.end() && p + it->second.size > src) splitCell(p, it->second, 0, 0); }
        for (uint64_t p = src; p < src + n; ++p) {
            auto it = M.cells.find(p);
            if (it == M.cells.end()) continue;
            if (p + it->second.size > src + n) { splitCell(p, it->second, 0, 0); it = M.cells.find(p); if (it == M.cells.end()) continue; }
            cs.push_back({ p - src, it->second });
        }
        if (!cs.empty() && !di) unsupported("symbolic copy to native memory");
    }
    std::vector<uint8_t> initb(n, 1);
    if (si) for (uint64_t i = 0; i < n; ++i) initb[i] = M.byteInit(src + i);
    if (di && M.anySym(dst, n)) M.clearCells(dst, n, [&](uint64_t p, Memory::Cell c) { splitCell(p, c, dst, dst + n); });
    memmove((void*) dst, (void*) src, n);
    if (di) {
        for (uint64_t i = 0; i < n; ++i) M.markInit(dst + i, 1, initb[i]);
        for (auto& c : cs) M.putCell(dst + c.first, c.second.s, c.second.size);
    }
}

Val Exec::doAlloc(uint64_t n, AK k, uint64_t align)
{
    if (n > (1ull << 28)) {
        return Val{ 0 };
    }
    uint64_t a = M.alloc(n, k, false, align);
    if (k == AK::Malloc) ++mallocLive;
    return Val{ a };
}
void Exec::doFree(uint64_t p, AK k)
{
    if (!p) return;
    if (!M.inArena(p)) { if (k == AK::Malloc) free((void*) p); else ::operator delete((void*) p); return; }
    Alloc* a = M.find(p);
    if (!a || a->base != p || a->kind == AK::Stack || a->kind == AK::Global) throw MemError{ "invalid free" };
    if (!a->live) throw MemError{ "double free" };
    if (a->kind != k) throw MemError{ "mismatched allocation and release functions" };
    a->live = false;
    if (k == AK::Malloc) --mallocLive;
}

// ---------------------------------------------------------------- operators
// Single precision on symbolic data: the double-precision result times (1 + e) with an arbitrary |e| <= 2^-24.
Val Exec::widen(const Val& v) { if (v.s) return v; float f; memcpy(&f, &v.c, 4); return Val{ u((double) f) }; }
Val Exec::roundFloat(const Val& v)
{
    if (opt.fpMode) unsupported("symbolic float");
    if (!v.s) { float f = (float) d(v.c); Val r; memcpy(&r.c, &f, 4); return r; }
    z3::expr e = S.ctx.real_const(("flt!" + std::to_string(freshCtr++)).c_str()), b = dblConst(std::ldexp(1.0, -24));
    S.addConstraint(e <= b && e >= -b);
    return fromReal(real(v) * (S.ctx.real_val(1) + e));
}
// Integer part (floor) of a symbolic real by case distinction.
long Exec::floorSplit(const Val& v)
{
    z3::expr x = real(v);
    for (long k = 0; k < 64; ++k) {
        if (branch(x >= (int) k && x < (int) (k + 1), "integer part")) return k;
        if (branch(x >= (int) (-k - 1) && x < (int) -k, "integer part")) return -k - 1;
    }
    unsupported("integer part of a large symbolic value");
}

Val Exec::binop(unsigned op, const Instruction* I, Type* t, const Val& a, const Val& b)
{
    if (t->isDoubleTy()) return fbin(op, a, b);
    if (t->isX86_FP80Ty()) return ldbin(op, a, b);
    if (t->isFloatTy()) {
        if (a.s || b.s) return roundFloat(fbin(op, widen(a), widen(b)));
        float x, y, r; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4);
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: unsupported("float op"); }
        Val v; memcpy(&v.c, &r, 4); return v;
    }
    unsigned w = t->getIntegerBitWidth();
    if (!a.s && !b.s && w <= 64) {
        uint64_t x = a.c, y = b.c; int64_t sxx = sx(x, w), sy = sx(y, w);
        switch (op) {
        case Instruction::Add: return Val{ maskw(x + y, w) };
        case Instruction::Sub: return Val{ maskw(x - y, w) };
        case Instruction::Mul: return Val{ maskw(x * y, w) };
        case Instruction::UDiv: if (!y) violation("arith", "division by zero", "", nullptr); return Val{ maskw(x / y, w) };
        case Instruction::URem: if (!y) violation("arith", "division by zero", "", nullptr); return Val{ maskw(x % y, w) };
        case Instruction::SDiv: if (!sy) violation("arith", "division by zero", "", nullptr); if (sy == -1) return Val{ maskw(-x, w) }; return Val{ maskw(sxx / sy, w) };
        case Instruction::SRem: if (!sy) violation("arith", "division by zero", "", nullptr); if (sy == -1) return Val{ 0 }; return Val{ maskw(sxx % sy, w) };
        case Instruction::And: return Val{ x & y };
        case Instruction::Or: return Val{ x | y };
        case Instruction::Xor: return Val{ x ^ y };
        case Instruction::Shl: return Val{ y >= w ? 0 : maskw(x << y, w) };
        case Instruction::LShr: return Val{ y >= w ? 0 : x >> y };
        case Instruction::AShr: return Val{ maskw(y >= w ? (sxx < 0 ? -1 : 0) : sxx >> y, w) };
        }
        unsupported("integer op");
    }
    if (w == 64 && a.s && a.s->kind == Sym::REAL && !b.s) {
        const z3::expr neg = a.s->e < 0;
        const bool top = b.c == 63, sign = b.c == 1ull << 63, mag = b.c == (1ull << 63) - 1;
        if (op == Instruction::LShr && top) return fromBV(z3::ite(neg, S.ctx.bv_val((uint64_t) 1, 64), S.ctx.bv_val((uint64_t) 0, 64)), 64);
        if (op == Instruction::AShr && top) return fromBV(z3::ite(neg, S.ctx.bv_val((uint64_t) -1, 64), S.ctx.bv_val(0, 64)), 64);
        if (op == Instruction::And && sign) return fromBV(z3::ite(neg, S.ctx.bv_val((uint64_t) 1 << 63, 64), S.ctx.bv_val(0, 64)), 64);
        if (op == Instruction::And && mag) return branch(neg, "sign") ? fromReal(-a.s->e) : a;
        if (op == Instruction::Xor && sign) return fromReal(-a.s->e);
    }
    if (w == 1) {
        z3::expr x = boolean(a), y = boolean(b);
        switch (op) {
        case Instruction::And: case Instruction::Mul: return fromBool(x && y);
        case Instruction::Or: return fromBool(x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(x != y);
        }
        unsupported("i1 op");
    }
    z3::expr x = bv(a, w), y = bv(b, w);
    switch (op) {
    case Instruction::Add: return fromBV(x + y, w);
    case Instruction::Sub: return fromBV(x - y, w);
    case Instruction::Mul: return fromBV(x * y, w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (branch(y == S.ctx.bv_val(0, w), "divisor")) violation("arith", "division by zero", "", nullptr);
        return fromBV(op == Instruction::UDiv ? z3::udiv(x, y) : op == Instruction::URem ? z3::urem(x, y) : op == Instruction::SDiv ? x / y : z3::srem(x, y), w);
    case Instruction::And: return fromBV(x & y, w);
    case Instruction::Or: return fromBV(x | y, w);
    case Instruction::Xor: return fromBV(x ^ y, w);
    case Instruction::Shl: return fromBV(z3::shl(x, y), w);
    case Instruction::LShr: return fromBV(z3::lshr(x, y), w);
    case Instruction::AShr: return fromBV(z3::ashr(x, y), w);
    }
    unsupported("integer op");
}

Val Exec::fbin(unsigned op, const Val& a, const Val& b)
{
    if (!a.s && !b.s) {
        double x = d(a.c), y = d(b.c), r;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = std::fmod(x, y); break; default: unsupported("double op"); }
        return Val{ u(r) };
    }
    if (opt.fpMode) {
        z3::expr x = fpa(a), y = fpa(b), rm(S.ctx, Z3_mk_fpa_rne(S.ctx));
        switch (op) {
        case Instruction::FAdd: return fromFP(z3::expr(S.ctx, Z3_mk_fpa_add(S.ctx, rm, x, y)));
        case Instruction::FSub: return fromFP(z3::expr(S.ctx, Z3_mk_fpa_sub(S.ctx, rm, x, y)));
        case Instruction::FMul: return fromFP(z3::expr(S.ctx, Z3_mk_fpa_mul(S.ctx, rm, x, y)));
        case Instruction::FDiv: return fromFP(z3::expr(S.ctx, Z3_mk_fpa_div(S.ctx, rm, x, y)));
        }
        unsupported("fp op");
    }
    // real mode, at least one symbolic operand
    auto special = [&](const Val& v) { return !v.s && !std::isfinite(d(v.c)); };
    if (special(a) || special(b)) {
        const Val& c = special(a) ? a : b; double k = d(c.c);
        if (std::isnan(k)) return Val{ u(k) };
        switch (op) {
        case Instruction::FAdd: return c;
        case Instruction::FSub: return Val{ u(special(a) ? k : -k) };
        case Instruction::FMul: case Instruction::FDiv: {
            if (op == Instruction::FDiv && special(b)) return Val{ u(0.0) };
            z3::expr o = real(special(a) ? b : a);
            if (branch(o == 0, "zero times infinity")) return Val{ u(op == Instruction::FDiv ? k : NAN) };
            return branch(o > 0, "sign") ? Val{ u(k) } : Val{ u(-k) };
        }
        }
    }
    if (op == Instruction::FDiv) return fdivReal(a, b);
    z3::expr x = real(a), y = real(b);
    switch (op) {
    case Instruction::FAdd: return fromReal(x + y);
    case Instruction::FSub: return fromReal(x - y);
    case Instruction::FMul: { Val o; if (!qdef.empty() && (cancel(x, y, o) || cancel(y, x, o))) return o; return fromReal(x * y); }
    }
    unsupported("real op");
}

z3::expr Exec::canon(const z3::expr& e)
{
    z3::params p(S.ctx);
    p.set("som", true); p.set("sort_sums", true);
    return e.simplify(p);
}
// (n/d) * d is n
bool Exec::cancel(const z3::expr& q, const z3::expr& y, Val& out)
{
    auto it = qdef.find(Z3_get_ast_id(S.ctx, q));
    if (it == qdef.end()) return false;
    z3::expr c = canon(y);
    if (!z3::eq(c, it->second.second)) return false;
    out = fromReal(it->second.first);
    return true;
}

Val Exec::fdivReal(const Val& a, const Val& b)
{
    z3::expr x = real(a);
    if (!b.s) {
        double y = d(b.c);
        if (y == 0) {
            if (branch(x == 0, "0/0")) return Val{ u(NAN) };
            double inf = std::signbit(y) ? -INFINITY : INFINITY;
            return branch(x > 0, "sign") ? Val{ u(inf) } : Val{ u(-inf) };
        }
        return fromReal(x / dblConst(y));
    }
    z3::expr y = real(b);
    if (branch(y == 0, "denominator zero")) {
        if (branch(x == 0, "0/0")) return Val{ u(NAN) };
        return branch(x > 0, "sign") ? Val{ u(INFINITY) } : Val{ u(-INFINITY) };
    }
    z3::expr xs = canon(x), ys = canon(y);
    auto key = std::make_pair(Z3_get_ast_id(S.ctx, xs), Z3_get_ast_id(S.ctx, ys));
    auto it = divCache.find(key);
    if (it != divCache.end()) return Val{ 0, it->second };
    if (z3::eq(xs, ys)) return Val{ u(1.0) };
    if (!a.s && d(a.c) == 0) return Val{ u(0.0) };
    z3::expr q = S.ctx.real_const(("q!" + std::to_string(freshCtr++)).c_str());
    S.addConstraint(q * ys == xs);
    S.quotientLemmas(q, xs, ys);
    S.quotients.emplace_back(q, std::make_pair(xs, ys));
    // keep the assignment total on q when possible
    {
        bool have = true;
        z3::expr t = xs / ys;
        z3::expr_vector from(S.ctx), to(S.ctx);
        for (unsigned v : S.info(t)->vars) { auto f = S.assign.find(v); if (f == S.assign.end()) { have = false; break; } from.push_back(S.declOf.at(v)()); to.push_back(f->second); }
        if (have) {
            z3::expr qv = t.substitute(from, to).simplify();
            S.info(q);
            if (qv.is_numeral() || qv.is_algebraic()) S.assign.emplace(S.info(q)->vars[0], qv);
        }
    }
    keepAst.push_back(xs); keepAst.push_back(ys);
    const Sym* s = mk(Sym::REAL, 64, q);
    divCache[key] = s;
    keepAst.push_back(q);
    qdef.emplace(Z3_get_ast_id(S.ctx, q), std::make_pair(xs, ys));
    return Val{ 0, s };
}

// Long double on symbolic data is interpreted over the reals, like double.
Val Exec::fromLD(const Val& v) { if (v.s && v.s->kind == Sym::LD) return Val{ u((double) v.s->ld) }; return v; }
Val Exec::toLD(const Val& v) { if (v.s) return v; pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), (long double) d(v.c) }); return Val{ 0, &pool.back() }; }
Val Exec::ldbin(unsigned op, const Val& a, const Val& b)
{
    if ((a.s && a.s->kind == Sym::REAL) || (b.s && b.s->kind == Sym::REAL)) return toLD(fbin(op, fromLD(a), fromLD(b)));
    long double x = a.s ? a.s->ld : 0, y = b.s ? b.s->ld : 0, r;
    switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: unsupported("ld op"); }
    pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), r });
    return Val{ 0, &pool.back() };
}

Val Exec::icmp(unsigned p, unsigned w, const Val& a, const Val& b)
{
    // sign bit of a real-valued term (no term is -0)
    if (w == 64 && a.s && a.s->kind == Sym::REAL && !b.s) {
        const int64_t k = (int64_t) b.c;
        if ((p == CmpInst::ICMP_SLT && k == 0) || (p == CmpInst::ICMP_SLE && k == -1)) return fromBool(a.s->e < 0);
        if ((p == CmpInst::ICMP_SGE && k == 0) || (p == CmpInst::ICMP_SGT && k == -1)) return fromBool(a.s->e >= 0);
    }
    if (!a.s && !b.s && w <= 64) {
        uint64_t x = a.c, y = b.c; int64_t sa = sx(x, w), sb = sx(y, w); bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
        }
        return Val{ r };
    }
    if (w == 1) {
        z3::expr x = boolean(a), y = boolean(b);
        switch (p) {
        case CmpInst::ICMP_EQ: return fromBool(x == y);
        case CmpInst::ICMP_NE: return fromBool(x != y);
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return fromBool(x && !y);
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return fromBool(!x && y);
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return fromBool(x || !y);
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return fromBool(!x || y);
        }
    }
    z3::expr x = bv(a, w), y = bv(b, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return fromBool(x == y); case CmpInst::ICMP_NE: return fromBool(x != y);
    case CmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return fromBool(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return fromBool(z3::ult(x, y)); case CmpInst::ICMP_ULE: return fromBool(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return fromBool(z3::sgt(x, y)); case CmpInst::ICMP_SGE: return fromBool(z3::sge(x, y));
    case CmpInst::ICMP_SLT: return fromBool(z3::slt(x, y)); case CmpInst::ICMP_SLE: return fromBool(z3::sle(x, y));
    }
    unsupported("icmp");
}

template <class T> static bool fc(unsigned p, T x, T y)
{
    bool un = std::isnan(x) || std::isnan(y);
    switch (p) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_OGE: return x >= y;
    case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_OLE: return x <= y; case CmpInst::FCMP_ONE: return !un && x != y;
    case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return un || x == y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y;
    case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_UNE: return un || x != y;
    }
    return false;
}
Val Exec::fcmp(unsigned p, Type* t, const Val& a, const Val& b)
{
    if (t->isX86_FP80Ty()) {
        if (a.s->kind == Sym::REAL || b.s->kind == Sym::REAL) return fcmp(p, Type::getDoubleTy(t->getContext()), fromLD(a), fromLD(b));
        return Val{ fc<long double>(p, a.s->ld, b.s->ld) };
    }
    if (t->isFloatTy()) { if (a.s || b.s) return fcmp(p, Type::getDoubleTy(t->getContext()), widen(a), widen(b)); float x, y; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4); return Val{ fc<float>(p, x, y) }; }
    if (!a.s && !b.s) return Val{ fc<double>(p, d(a.c), d(b.c)) };
    if (opt.fpMode) {
        z3::expr x = fpa(a), y = fpa(b);
        auto E = [&](Z3_ast r) { return z3::expr(S.ctx, r); };
        z3::expr un = E(Z3_mk_fpa_is_nan(S.ctx, x)) || E(Z3_mk_fpa_is_nan(S.ctx, y));
        z3::expr r = S.ctx.bool_val(false);
        bool unord = false;
        switch (p) {
        case CmpInst::FCMP_UEQ: unord = true; [[fallthrough]]; case CmpInst::FCMP_OEQ: r = E(Z3_mk_fpa_eq(S.ctx, x, y)); break;
        case CmpInst::FCMP_UGT: unord = true; [[fallthrough]]; case CmpInst::FCMP_OGT: r = E(Z3_mk_fpa_gt(S.ctx, x, y)); break;
        case CmpInst::FCMP_UGE: unord = true; [[fallthrough]]; case CmpInst::FCMP_OGE: r = E(Z3_mk_fpa_geq(S.ctx, x, y)); break;
        case CmpInst::FCMP_ULT: unord = true; [[fallthrough]]; case CmpInst::FCMP_OLT: r = E(Z3_mk_fpa_lt(S.ctx, x, y)); break;
        case CmpInst::FCMP_ULE: unord = true; [[fallthrough]]; case CmpInst::FCMP_OLE: r = E(Z3_mk_fpa_leq(S.ctx, x, y)); break;
        case CmpInst::FCMP_UNE: return fromBool(!E(Z3_mk_fpa_eq(S.ctx, x, y)));
        case CmpInst::FCMP_ONE: return fromBool(!un && !E(Z3_mk_fpa_eq(S.ctx, x, y)));
        case CmpInst::FCMP_ORD: return fromBool(!un);
        case CmpInst::FCMP_UNO: return fromBool(un);
        default: unsupported("fcmp");
        }
        return fromBool(unord ? (r || un) : r);
    }
    auto special = [&](const Val& v) { return !v.s && !std::isfinite(d(v.c)); };
    if (special(a)) return Val{ fc<double>(p, d(a.c), 0.0) };
    if (special(b)) return Val{ fc<double>(p, 0.0, d(b.c)) };
    z3::expr x = real(a), y = real(b);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromBool(x == y);
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromBool(x != y);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromBool(x > y);
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromBool(x >= y);
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromBool(x < y);
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromBool(x <= y);
    case CmpInst::FCMP_ORD: return Val{ 1 };
    case CmpInst::FCMP_UNO: return Val{ 0 };
    }
    unsupported("fcmp");
}

Val Exec::fabsV(const Val& a)
{
    if (!a.s) return Val{ u(std::fabs(d(a.c))) };
    if (opt.fpMode) return fromFP(z3::expr(S.ctx, Z3_mk_fpa_abs(S.ctx, fpa(a))));
    z3::expr x = real(a);
    return branch(x >= 0, "fabs") ? a : fromReal(-x);
}

Val Exec::castop(const CastInst* C, Type* from, Type* to, const Val& v)
{
    unsigned fw = from->isIntegerTy() ? from->getIntegerBitWidth() : 64, tw = to->isIntegerTy() ? to->getIntegerBitWidth() : 64;
    switch (C->getOpcode()) {
    case Instruction::Trunc:
        if (!v.s) return Val{ maskw(v.c, tw) };
        if (tw == 1) return fromBool(boolean(v));
        return fromBV(bv(v, fw).extract(tw - 1, 0), tw);
    case Instruction::ZExt:
        if (!v.s && tw <= 64) return v;
        if (v.s && v.s->kind == Sym::BOOL) return fromBV(bv(v, tw), tw);
        return fromBV(z3::zext(bv(v, fw), tw - fw), tw);
    case Instruction::SExt:
        if (!v.s && tw <= 64) return Val{ maskw((uint64_t) sx(v.c, fw), tw) };
        if (v.s && v.s->kind == Sym::BOOL) return fromBV(z3::ite(v.s->e, S.ctx.bv_val((uint64_t) -1, tw), S.ctx.bv_val(0, tw)), tw);
        return fromBV(z3::sext(bv(v, fw), tw - fw), tw);
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return v;
    case Instruction::SIToFP: case Instruction::UIToFP: {
        Val w = v;
        if (v.s) w.s = nullptr, w.c = concretize(v, fw, "int to floating-point conversion");
        bool sg = C->getOpcode() == Instruction::SIToFP;
        int64_t si = sx(w.c, fw);
        if (to->isDoubleTy()) return Val{ u(sg ? (double) si : (double) w.c) };
        if (to->isFloatTy()) { float f = sg ? (float) si : (float) w.c; Val r; memcpy(&r.c, &f, 4); return r; }
        pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), sg ? (long double) si : (long double) w.c });
        return Val{ 0, &pool.back() };
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = C->getOpcode() == Instruction::FPToSI;
        if (v.s && v.s->kind == Sym::REAL) { long k = floorSplit(v); if (k < 0 && !branch(real(v) == (int) k, "integral")) ++k; return Val{ maskw((uint64_t) k, tw) }; }
        if (from->isX86_FP80Ty()) { long double x = v.s->ld; return Val{ maskw(sg ? (uint64_t) (int64_t) x : (uint64_t) x, tw) }; }
        if (v.s) unsupported("symbolic floating-point to integer conversion");
        double x; if (from->isFloatTy()) { float f; memcpy(&f, &v.c, 4); x = f; } else x = d(v.c);
        return Val{ maskw(sg ? (uint64_t) (int64_t) x : (uint64_t) x, tw) };
    }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        long double x;
        if (v.s && v.s->kind == Sym::REAL) return to->isFloatTy() ? roundFloat(v) : v;
        if (from->isX86_FP80Ty()) x = v.s->ld;
        else if (from->isFloatTy()) { if (v.s) unsupported("symbolic float"); float f; memcpy(&f, &v.c, 4); x = f; }
        else { if (v.s) unsupported("symbolic precision change"); x = d(v.c); }
        if (to->isDoubleTy()) return Val{ u((double) x) };
        if (to->isFloatTy()) { float f = (float) x; Val r; memcpy(&r.c, &f, 4); return r; }
        pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), x });
        return Val{ 0, &pool.back() };
    }
    default: unsupported("cast");
    }
}

} // namespace symx
