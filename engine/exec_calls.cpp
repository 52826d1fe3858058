#include "exec.hpp"
#include <cmath>
#include <cxxabi.h>
#include <dlfcn.h>
using namespace llvm;
namespace symx {

static inline uint64_t maskw(uint64_t x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }
static inline int64_t sx(uint64_t x, unsigned w) { return w >= 64 ? (int64_t) x : (int64_t) (x << (64 - w)) >> (64 - w); }

enum H {
    H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_NEW, H_NEWA, H_NEWAL, H_NEWNT, H_DEL, H_DELA,
    H_EXALLOC, H_EXFREE, H_THROW, H_BEGIN, H_END, H_RETHROW, H_GETPTR, H_ATEXIT, H_GACQ, H_GREL, H_GABORT, H_NOP,
    H_ASSERTFAIL, H_ABORT, H_TERMINATE, H_MEMCPY, H_MEMMOVE, H_MEMSET, H_MEMCMP, H_FABS, H_SQRT, H_FMIN, H_FMAX, H_LOGL,
    S_DOUBLE, S_INT, S_U64, S_CHOOSE, S_CONC, S_ASSUME, S_ASSERT, S_CLOSE, S_LE, S_REACH, S_OBSD, S_OBSI, S_FBEGIN, S_FEND, S_LIVE, S_SYMBOLIC, S_LIVEALL, S_FCOUNT, S_U32
};

int Exec::handlerFor(const std::string& n)
{
    static const std::unordered_map<std::string, int> m = {
        { "malloc", H_MALLOC }, { "calloc", H_CALLOC }, { "realloc", H_REALLOC }, { "free", H_FREE },
        { "_Znwm", H_NEW }, { "_Znam", H_NEWA }, { "_ZnwmSt11align_val_t", H_NEWAL }, { "_ZnwmRKSt9nothrow_t", H_NEWNT },
        { "_ZdlPv", H_DEL }, { "_ZdlPvm", H_DEL }, { "_ZdlPvSt11align_val_t", H_DEL }, { "_ZdlPvmSt11align_val_t", H_DEL }, { "_ZdlPvRKSt9nothrow_t", H_DEL },
        { "_ZdaPv", H_DELA }, { "_ZdaPvm", H_DELA },
        { "__cxa_allocate_exception", H_EXALLOC }, { "__cxa_free_exception", H_EXFREE }, { "__cxa_throw", H_THROW },
        { "__cxa_begin_catch", H_BEGIN }, { "__cxa_end_catch", H_END }, { "__cxa_rethrow", H_RETHROW }, { "__cxa_get_exception_ptr", H_GETPTR },
        { "__cxa_atexit", H_ATEXIT }, { "__cxa_guard_acquire", H_GACQ }, { "__cxa_guard_release", H_GREL }, { "__cxa_guard_abort", H_GABORT },
        { "_ZNSt8ios_base4InitC1Ev", H_NOP }, { "_ZNSt8ios_base4InitD1Ev", H_NOP },
        { "__assert_fail", H_ASSERTFAIL }, { "abort", H_ABORT }, { "exit", H_ABORT }, { "_ZSt9terminatev", H_TERMINATE },
        { "memcpy", H_MEMCPY }, { "memmove", H_MEMMOVE }, { "memset", H_MEMSET }, { "memcmp", H_MEMCMP }, { "bcmp", H_MEMCMP },
        { "fabs", H_FABS }, { "sqrt", H_SQRT }, { "fmin", H_FMIN }, { "fmax", H_FMAX }, { "logl", H_LOGL },
        { "symx_double", S_DOUBLE }, { "symx_int", S_INT }, { "symx_u64", S_U64 }, { "symx_u32", S_U32 }, { "symx_choose", S_CHOOSE }, { "symx_concretize", S_CONC },
        { "symx_assume", S_ASSUME }, { "symx_assert", S_ASSERT }, { "symx_close", S_CLOSE }, { "symx_le", S_LE }, { "symx_reach", S_REACH },
        { "symx_observe", S_OBSD }, { "symx_observe_int", S_OBSI }, { "symx_fault_begin", S_FBEGIN }, { "symx_fault_end", S_FEND },
        { "symx_live_allocs", S_LIVE }, { "symx_symbolic", S_SYMBOLIC }, { "symx_live_all", S_LIVEALL }, { "symx_fault_count", S_FCOUNT },
    };
    auto it = m.find(n);
    return it == m.end() ? -1 : it->second;
}

std::string Exec::cstr(const Val& v)
{
    uint64_t a = ptr(v); std::string s;
    for (;; ++a) { Val b = loadBits(a, 1, nullptr); if (b.s) { b.c = concretize(b, 8, "string byte"); } if (!b.c) break; s += (char) b.c; }
    return s;
}

Val Exec::newInput(const std::string& name0, char type, unsigned w)
{
    int k = nameCtr[name0]++;
    std::string name = k ? name0 + "#" + std::to_string(k) : name0;
    z3::expr e = type == 'd' ? (opt.fpMode ? S.ctx.fpa_const<64>(name.c_str()) : S.ctx.real_const(name.c_str()))
               : type == 'b' ? S.ctx.bool_const(name.c_str()) : S.ctx.bv_const(name.c_str(), w);
    inputs.push_back(Input{ name, e, type == 'd' ? 'd' : 'i' });
    return Val{ 0, mk(type == 'd' ? (opt.fpMode ? Sym::FP : Sym::REAL) : type == 'b' ? Sym::BOOL : Sym::BV, w, e) };
}

// ------------------------------------------------------------------ frames
void Exec::enter(FnInfo* f, const std::vector<Val>& args)
{
    if (!f->decoded) decode(f);
    ++f->calls;
    if (stack.size() > 200000) violation("memory", "stack overflow (unbounded recursion)", "", nullptr);
    stack.emplace_back();
    Frame& fr = stack.back();
    fr.f = f;
    if (!freeSlots.empty()) { fr.slots = std::move(freeSlots.back()); freeSlots.pop_back(); }
    if (fr.slots.size() < f->nslots) fr.slots.resize(f->nslots);
    for (unsigned i = 0; i < args.size() && i < fr.slots.size(); ++i) fr.slots[i] = args[i];
    fr.block = 0; fr.pc = f->blocks.empty() ? 0 : f->blocks[0].first;
}

void Exec::popFrame()
{
    Frame& fr = stack.back();
    for (uint64_t a : fr.allocas) if (Alloc* al = M.find(a)) al->live = false;
    freeSlots.push_back(std::move(fr.slots));
    stack.pop_back();
}

void Exec::setResult(Frame& fr, const DInst& di, const Val* v, unsigned n)
{
    if (di.dst >= 0) for (unsigned i = 0; i < n; ++i) fr.slots[di.dst + i] = v[i];
}

void Exec::ret(const Val* v0, unsigned n)
{
    std::vector<Val> v(v0, v0 + n);
    popFrame();
    if (stack.empty()) return;
    Frame& fr = stack.back();
    const DInst& di = fr.f->code[fr.pc - 1];
    setResult(fr, di, v.data(), n);
    if (di.op == Instruction::Invoke) jump(fr, di.t0);
}

void Exec::jump(Frame& fr, int to)
{
    Block& b = fr.f->blocks[to];
    if (!b.phis.empty()) {
        for (auto& p : b.phis) if (p.first == fr.block) {
            if (p.second.size() == 1 && p.second[0].n == 1) { fr.slots[p.second[0].dst] = get(fr, p.second[0].src); break; }
            phiTmp.clear();
            for (auto& m : p.second) for (unsigned k = 0; k < m.n; ++k) phiTmp.push_back(get(fr, m.src, k));
            unsigned i = 0;
            for (auto& m : p.second) for (unsigned k = 0; k < m.n; ++k) fr.slots[m.dst + k] = phiTmp[i++];
            break;
        }
    }
    fr.block = to; fr.pc = b.first;
}

// ------------------------------------------------------------------ exceptions
bool Exec::catches(uint64_t cti, int e, uint64_t* adj)
{
    void* o = (void*) excs[e].obj;
    if (!cti) { *adj = (uint64_t) o; return true; }
    auto* ct = (const std::type_info*) cti; auto* tt = (const std::type_info*) excs[e].ti;
    if (tt->__is_pointer_p()) o = *(void**) o;
    if (ct->__do_catch(tt, &o, 1)) { *adj = (uint64_t) o; return true; }
    return false;
}

void Exec::unwind()
{
    for (;;) {
        if (stack.size() <= baseDepth) {
            const char* nm = ((const std::type_info*) excs[curExc].ti)->name();
            int st; char* dn = abi::__cxa_demangle(nm, nullptr, nullptr, &st);
            std::string w = dn ? dn : nm; free(dn);
            violation("exception", "uncaught exception " + w, throwSite, nullptr);
        }
        Frame& fr = stack.back();
        const DInst& di = fr.f->code[fr.pc - 1];
        if (di.op == Instruction::Invoke) {
            auto* iv = cast<InvokeInst>(di.I);
            auto* lp = iv->getLandingPadInst();
            int sel = -1; uint64_t adj = excs[curExc].obj;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i) {
                if (lp->isCatch(i)) {
                    std::vector<Val> v; flattenConst(lp->getClause(i), v);
                    if (catches(v[0].c, curExc, &adj)) {
                        auto t = typeIds.emplace(v[0].c, (int) typeIds.size() + 1); sel = t.first->second;
                    }
                } else { violation("exception", "exception specification violated", throwSite, nullptr); }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                lpSel = sel; if (sel > 0) excs[curExc].adj = adj;
                jump(fr, di.t1);
                return;
            }
        } else if (fr.f->F->doesNotThrow()) violation("exception", "exception escapes a noexcept function", throwSite, nullptr);
        popFrame();
    }
}
void Exec::throwExc(int e) { curExc = e; throwSite = where(); unwind(); }

// ------------------------------------------------------------------ native calls
namespace {
struct P2 { uint64_t a, b; }; struct D2 { double a, b; };
#define NA uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t
typedef P2 (*FnP)(NA); typedef D2 (*FnD)(NA); typedef float (*FnF)(NA);
}

void Exec::nativeCall(const CallBase* cb, const std::string& name, void* p, const std::vector<Val>& args0, std::vector<Val>& res)
{
    ++nativeCalls[name];
    // Stream bookkeeping: precision, width and flags may be symbolic; the calls themselves do not look at them.
    const bool ios = name.find("9basic_ios") != std::string::npos || name.find("8ios_base") != std::string::npos, copyfmt = name.find("7copyfmt") != std::string::npos;
    bool white = ios || name.find("_Rb_tree_") != std::string::npos || name.find("_Prime_rehash") != std::string::npos || name.find("_List_node_base") != std::string::npos || name.find("__throw") != std::string::npos;
    uint64_t g[16] = {}; double dd[8] = {}; unsigned ng = 0, nd = 0, ai = 0;
    std::vector<uint64_t> ptrs;
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
        Type* t = cb->getArgOperand(i)->getType();
        if (leaves(t) != 1) unsupported("aggregate argument to external function " + name);
        Val v = args0[ai++];
        if (t->isX86_FP80Ty()) unsupported("long double argument to external function " + name);
        if (cb->isByValArgument(i)) unsupported("byval argument to external function " + name);
        if (t->isDoubleTy()) { if (v.s) unsupported("symbolic double passed to external function " + name); if (nd < 8) dd[nd++] = d(v.c); }
        else if (t->isFloatTy()) { if (v.s) unsupported("symbolic float"); uint64_t c = v.c & 0xffffffffu; if (nd < 8) memcpy(&dd[nd++], &c, 8); }
        else {
            unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
            uint64_t c = v.s ? concretize(v, w, "argument of an external function") : v.c;
            if (w < 64 && cb->paramHasAttr(i, Attribute::SExt)) c = (uint64_t) sx(c, w);
            if (t->isPointerTy() && M.inArena(c)) {
                Alloc* al = M.find(c);
                if (!al) throw MemError{ "wild pointer passed to " + name };
                if (!al->live) throw MemError{ "dangling pointer passed to " + name };
                if (!white && M.anySym(al->base, al->size)) unsupported("symbolic memory passed to external function " + name);
                ptrs.push_back(c);
            }
            if (ng < 12) g[ng++] = c; else unsupported("too many arguments");
        }
    }
    Type* rt = cb->getType();
    int exc = -1;
    try {
#define CALLN(T) ((T) p)(g[0], g[1], g[2], g[3], g[4], g[5], dd[0], dd[1], dd[2], dd[3], dd[4], dd[5], dd[6], dd[7], g[6], g[7], g[8], g[9], g[10], g[11])
        if (rt->isVoidTy()) CALLN(FnP);
        else if (rt->isDoubleTy()) { D2 r = CALLN(FnD); res.push_back(Val{ u(r.a) }); }
        else if (rt->isFloatTy()) { float r = CALLN(FnF); Val v; memcpy(&v.c, &r, 4); res.push_back(v); }
        else if (rt->isX86_FP80Ty()) unsupported("long double result of external function " + name);
        else {
            std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(rt, 0, lt);
            if (lt.size() == 2 && lt[0].first->isDoubleTy() && lt[1].first->isDoubleTy()) { D2 r = CALLN(FnD); res.push_back(Val{ u(r.a) }); res.push_back(Val{ u(r.b) }); }
            else {
                P2 r = CALLN(FnP);
                uint64_t raw[2] = { r.a, r.b };
                if (lt.size() > 2) unsupported("aggregate result of external function " + name);
                if (lt.size() == 2 && dl.getTypeAllocSize(rt) <= 8) unsupported("packed result of external function " + name);
                for (unsigned i = 0; i < lt.size(); ++i) {
                    unsigned w = lt[i].first->isIntegerTy() ? lt[i].first->getIntegerBitWidth() : 64;
                    res.push_back(Val{ maskw(raw[i], w) });
                }
            }
        }
    } catch (PathEnd&) { throw; }
      catch (MemError&) { throw; }
      catch (...) {
        Exc e; e.keep = std::current_exception();
        e.obj = *(uint64_t*) (void*) &e.keep; e.ti = (uint64_t) abi::__cxa_current_exception_type(); e.adj = e.obj;
        excs.push_back(std::move(e)); exc = (int) excs.size() - 1;
    }
    for (uint64_t c : ptrs) { Alloc* al = M.find(c); if (!al || !al->live) continue; if (!white || ios) M.markInit(al->base, al->size); else if (name.find("_Rb_tree_insert") != std::string::npos) M.markInit(c, std::min<uint64_t>(32, al->base + al->size - c)); else if (name.find("_List_node_base7_M_hook") != std::string::npos) M.markInit(c, std::min<uint64_t>(16, al->base + al->size - c)); }
    if (copyfmt) for (auto f : { std::make_pair(8u, 8u), std::make_pair(16u, 8u), std::make_pair(24u, 4u) }) {
        Type* t = IntegerType::get(cb->getContext(), f.second * 8);
        storeLeaf(g[0] + f.first, t, loadLeaf(g[1] + f.first, t));
    }
    if (exc >= 0) { pendingExc = exc; }
}

// ------------------------------------------------------------------ calls
bool Exec::intercept(int h, const CallBase* cb, const std::vector<Val>& a, std::vector<Val>& r)
{
    auto P = [&](unsigned i) { return ptr(a[i]); };
    auto bv32 = [&](const Val& v) -> z3::expr { if (v.s && v.s->kind == Sym::BOOL) return v.s->e; return bv(v, 32) != S.ctx.bv_val(0, 32); };
    auto fault = [&]() -> bool {
        if (!faultOn || faultBudget <= 0) return false;
        ++mallocCtr;
        Val b = newInput("mallocfail!" + std::to_string(mallocCtr), 'b', 1);
        if (branch(boolean(b), "allocation failure")) { --faultBudget; ++faultsInjected; return true; }
        return false;
    };
    switch (h) {
    case H_MALLOC: case H_CALLOC: {
        uint64_t n = a[0].s ? concretize(a[0], 64, "allocation size") : a[0].c;
        if (h == H_CALLOC) { uint64_t m = a[1].s ? concretize(a[1], 64, "allocation size") : a[1].c; if (__builtin_mul_overflow(n, m, &n)) { r.push_back(Val{ 0 }); return true; } }
        if (fault()) { r.push_back(Val{ 0 }); return true; }
        Val p = doAlloc(n, AK::Malloc);
        if (h == H_CALLOC && p.c) { memset((void*) p.c, 0, n); M.markInit(p.c, n); }
        r.push_back(p); return true;
    }
    case H_REALLOC: {
        uint64_t o = P(0), n = a[1].s ? concretize(a[1], 64, "allocation size") : a[1].c;
        if (fault()) { r.push_back(Val{ 0 }); return true; }
        Val p = doAlloc(n, AK::Malloc);
        if (o) { Alloc* al = M.find(o); if (!al || !al->live || al->base != o) throw MemError{ "invalid realloc" }; copyMem(p.c, o, std::min(n, al->size)); doFree(o, AK::Malloc); }
        r.push_back(p); return true;
    }
    case H_FREE: doFree(P(0), AK::Malloc); return true;
    case H_NEW: case H_NEWA: case H_NEWAL: case H_NEWNT: {
        uint64_t n = a[0].s ? concretize(a[0], 64, "allocation size") : a[0].c;
        Val p = doAlloc(n, h == H_NEWA ? AK::NewArr : AK::New, h == H_NEWAL ? a[1].c : 16);
        if (!p.c && h != H_NEWNT) {
            Exc e; try { throw std::bad_alloc(); } catch (...) { e.keep = std::current_exception(); e.obj = *(uint64_t*) (void*) &e.keep; e.ti = (uint64_t) abi::__cxa_current_exception_type(); e.adj = e.obj; }
            excs.push_back(std::move(e)); pendingExc = (int) excs.size() - 1; return true;
        }
        r.push_back(p); return true;
    }
    case H_DEL: doFree(P(0), AK::New); return true;
    case H_DELA: doFree(P(0), AK::NewArr); return true;
    case H_EXALLOC: r.push_back(Val{ M.alloc(a[0].c, AK::Exc) }); return true;
    case H_EXFREE: return true;
    case H_THROW: { Exc e; e.obj = P(0); e.ti = P(1); e.adj = e.obj; excs.push_back(std::move(e)); pendingExc = (int) excs.size() - 1; return true; }
    case H_BEGIN: {
        uint64_t o = P(0); int ix = -1;
        for (int i = (int) excs.size() - 1; i >= 0; --i) if (excs[i].obj == o) { ix = i; break; }
        if (ix < 0) unsupported("foreign exception");
        caught.push_back(ix); r.push_back(Val{ excs[ix].adj }); return true;
    }
    case H_END: if (!caught.empty()) caught.pop_back(); return true;
    case H_RETHROW: if (caught.empty()) violation("exception", "rethrow without an active exception", "", nullptr); pendingExc = caught.back(); return true;
    case H_GETPTR: { uint64_t o = P(0); for (auto& e : excs) if (e.obj == o) { r.push_back(Val{ e.adj }); return true; } r.push_back(Val{ o }); return true; }
    case H_ATEXIT: r.push_back(Val{ 0 }); return true;
    case H_GACQ: { uint64_t g = P(0); r.push_back(Val{ *(uint8_t*) g ? 0ull : 1ull }); return true; }
    case H_GREL: *(uint8_t*) P(0) = 1; return true;
    case H_GABORT: case H_NOP: return true;
    case H_ASSERTFAIL: violation("abort", "assertion in the code: " + cstr(a[0]), "", nullptr); return true;
    case H_ABORT: violation("abort", "abort()/exit() called", "", nullptr); return true;
    case H_TERMINATE: violation("abort", "std::terminate called", throwSite, nullptr); return true;
    case H_MEMCPY: case H_MEMMOVE: copyMem(P(0), P(1), a[2].s ? concretize(a[2], 64, "size") : a[2].c); r.push_back(a[0]); return true;
    case H_MEMSET: { uint64_t p = P(0), n = a[2].s ? concretize(a[2], 64, "size") : a[2].c; fillMem(p, a[1], n); r.push_back(a[0]); return true; }
    case H_MEMCMP: {
        uint64_t x = P(0), y = P(1), n = a[2].s ? concretize(a[2], 64, "size") : a[2].c;
        for (uint64_t i = 0; i < n; ++i) {
            Val p = loadBits(x + i, 1, nullptr), q = loadBits(y + i, 1, nullptr);
            if (!p.s && !q.s) { if (p.c != q.c) { r.push_back(Val{ maskw((uint64_t) (p.c < q.c ? -1 : 1), 32) }); return true; } continue; }
            z3::expr ep = bv(p, 8), eq = bv(q, 8);
            if (!branch(ep == eq, "memcmp")) { r.push_back(Val{ branch(z3::ult(ep, eq), "memcmp") ? 0xffffffffull : 1ull }); return true; }
        }
        r.push_back(Val{ 0 }); return true;
    }
    case H_FABS: r.push_back(fabsV(a[0])); return true;
    case H_SQRT: {
        if (!a[0].s) { r.push_back(Val{ u(std::sqrt(d(a[0].c))) }); return true; }
        if (opt.fpMode) { r.push_back(fromFP(z3::expr(S.ctx, Z3_mk_fpa_sqrt(S.ctx, Z3_mk_fpa_rne(S.ctx), fpa(a[0]))))); return true; }
        if (branch(real(a[0]) < 0, "sqrt")) { r.push_back(Val{ u(NAN) }); return true; }
        z3::expr q = S.ctx.real_const(("q!" + std::to_string(freshCtr++)).c_str());
        S.addConstraint(q * q == real(a[0])); S.addConstraint(q >= 0);
        r.push_back(Val{ 0, mk(Sym::REAL, 64, q) }); return true;
    }
    case H_FMIN: case H_FMAX: {
        if (!a[0].s && !a[1].s) { r.push_back(Val{ u(h == H_FMIN ? std::fmin(d(a[0].c), d(a[1].c)) : std::fmax(d(a[0].c), d(a[1].c))) }); return true; }
        Val c = fcmp(CmpInst::FCMP_OLT, Type::getDoubleTy(mod.getContext()), a[0], a[1]);
        bool lt = branchV(c, "fmin/fmax");
        r.push_back((h == H_FMIN) == lt ? a[0] : a[1]); return true;
    }
    case H_LOGL: { pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), logl(a[0].s->ld) }); r.push_back(Val{ 0, &pool.back() }); return true; }

    case S_DOUBLE: r.push_back(newInput(cstr(a[0]), 'd', 64)); return true;
    case S_INT: case S_CHOOSE: {
        int lo = h == S_INT ? (int) a[1].c : 0, hi = h == S_INT ? (int) a[2].c : (int) a[1].c - 1;
        if (a[1].s || (h == S_INT && a[2].s)) unsupported("symbolic range bound");
        Val v = newInput(cstr(a[0]), 'i', 32);
        z3::expr e = bv(v, 32);
        S.addConstraint(z3::sge(e, S.ctx.bv_val(lo, 32)) && z3::sle(e, S.ctx.bv_val(hi, 32)));
        if (lo > hi) unsupported("empty range");
        if (h == S_CHOOSE) r.push_back(Val{ concretize(v, 32, "choice") }); else r.push_back(v);
        return true;
    }
    case S_U64: r.push_back(newInput(cstr(a[0]), 'i', 64)); return true;
    case S_U32: r.push_back(newInput(cstr(a[0]), 'i', 32)); return true;
    case S_CONC: r.push_back(Val{ a[0].s ? concretize(a[0], 32, "concretize") : a[0].c }); return true;
    case S_ASSUME: assume(bv32(a[0])); return true;
    case S_ASSERT: checkAssert(a[0].s ? bv32(a[0]) : S.ctx.bool_val((uint32_t) a[0].c != 0), cstr(a[1]), nullptr); return true;
    case S_CLOSE: case S_LE: {
        std::string label = cstr(a[h == S_CLOSE ? 4 : 3]);
        bool ca = !a[0].s, cb2 = !a[1].s;
        double x = d(a[0].c), y = d(a[1].c);
        if (ca && cb2) {
            bool ok;
            if (h == S_CLOSE) { double rt = d(a[2].c), at = d(a[3].c); ok = x == y || (std::isfinite(x) && std::isfinite(y) && std::fabs(x - y) <= at + rt * std::fabs(y)); }
            else ok = x <= y + d(a[2].c);
            checkAssert(S.ctx.bool_val(ok), label, nullptr); return true;
        }
        if ((ca && !std::isfinite(x)) || (cb2 && !std::isfinite(y))) {
            bool ok = h == S_LE && !(ca && std::isnan(x)) && !(cb2 && std::isnan(y)) && ((ca && x < 0) || (cb2 && y > 0));
            checkAssert(S.ctx.bool_val(ok), label, nullptr); return true;
        }
        if (opt.fpMode) {
            z3::expr ex = fpa(a[0]), ey = fpa(a[1]);
            checkAssert(z3::expr(S.ctx, h == S_CLOSE ? Z3_mk_fpa_eq(S.ctx, ex, ey) : Z3_mk_fpa_leq(S.ctx, ex, ey)), label, nullptr); return true;
        }
        z3::expr ex = real(a[0]), ey = real(a[1]);
        if (h == S_CLOSE) {
            z3::expr T = dblConst(d(a[3].c)) + dblConst(d(a[2].c)) * z3::ite(ey >= 0, ey, -ey);
            z3::expr tol = (ex - ey <= T) && (ey - ex <= T);
            checkAssert(ex == ey, label, &tol);
        } else {
            z3::expr tol = ex <= ey + real(a[2]);
            checkAssert(ex <= ey, label, &tol);
        }
        return true;
    }
    case S_REACH: ++labels[cstr(a[0])]; return true;
    case S_OBSD: observed.push_back({ cstr(a[0]), a[1] }); observedType.push_back('d'); return true;
    case S_OBSI: observed.push_back({ cstr(a[0]), a[1] }); observedType.push_back('i'); return true;
    case S_FBEGIN: faultOn = true; faultBudget = (int) a[0].c; faultsInjected = 0; return true;
    case S_FEND: faultOn = false; r.push_back(Val{ (uint64_t) faultsInjected }); return true;
    case S_FCOUNT: r.push_back(Val{ (uint64_t) faultsInjected }); return true;
    case S_LIVE: r.push_back(Val{ mallocLive }); return true;
    case S_LIVEALL: { uint64_t n = 0; for (auto& al : M.allocs) if (al.live && (al.kind == AK::Malloc || al.kind == AK::New || al.kind == AK::NewArr)) ++n; r.push_back(Val{ n }); return true; }
    case S_SYMBOLIC: r.push_back(Val{ 1 }); return true;
    }
    return false;
}

void Exec::fillMem(uint64_t p, const Val& b, uint64_t n)
{
    if (!n) return;
    bool in = M.checkAccess(p, n, true);
    if (b.s) { Val c = b.s ? fromBV(bv(b, 8), 8) : b; for (uint64_t i = 0; i < n; ++i) storeBits(p + i, 1, c); return; }
    if (in) { M.clearCells(p, n, [&](uint64_t q, Memory::Cell c) { splitCell(q, c, p, p + n); }); M.markInit(p, n); }
    memset((void*) p, (int) (b.c & 0xff), n);
}

bool Exec::intrinsic(Frame& fr, const DInst& di, const IntrinsicInst* II, const std::vector<Val>& a, std::vector<Val>& r)
{
    (void) fr; (void) di;
    Type* t = II->getType();
    unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
    auto size = [&](const Val& v) { return v.s ? concretize(v, 64, "size") : v.c; };
    switch (II->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch:
        return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: r.push_back(Val{ 0 }); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: r.push_back(a[0]); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(ptr(a[0]), ptr(a[1]), size(a[2])); return true;
    case Intrinsic::memset: fillMem(ptr(a[0]), a[1], size(a[2])); return true;
    case Intrinsic::eh_typeid_for: { auto p = typeIds.emplace(a[0].c, (int) typeIds.size() + 1); r.push_back(Val{ (uint64_t) p.first->second }); return true; }
    case Intrinsic::fabs: r.push_back(fabsV(a[0])); return true;
    case Intrinsic::sqrt: return intercept(H_SQRT, II, a, r);
    case Intrinsic::minnum: return intercept(H_FMIN, II, a, r);
    case Intrinsic::maxnum: return intercept(H_FMAX, II, a, r);
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::log: case Intrinsic::exp:
        if (a[0].s) {
            auto id = II->getIntrinsicID();
            if (opt.fpMode || id == Intrinsic::log || id == Intrinsic::exp || id == Intrinsic::rint || !t->isDoubleTy()) unsupported("symbolic math intrinsic");
            long k = floorSplit(a[0]);
            if (id != Intrinsic::floor && (id == Intrinsic::ceil || k < 0) && !branch(real(a[0]) == (int) k, "integral")) ++k;
            r.push_back(Val{ u((double) k) }); return true;
        }
        { double x = d(a[0].c), y = 0; switch (II->getIntrinsicID()) { case Intrinsic::floor: y = std::floor(x); break; case Intrinsic::ceil: y = std::ceil(x); break; case Intrinsic::trunc: y = std::trunc(x); break; case Intrinsic::log: y = std::log(x); break; case Intrinsic::exp: y = std::exp(x); break; default: y = std::rint(x); } r.push_back(Val{ u(y) }); }
        return true;
    case Intrinsic::copysign:
        if (a[0].s || a[1].s) {
            if (opt.fpMode || !t->isDoubleTy()) unsupported("symbolic copysign");
            bool neg = a[1].s ? branch(real(a[1]) < 0, "copysign") : std::signbit(d(a[1].c));
            Val m = fabsV(a[0]); r.push_back(neg ? fbin(Instruction::FSub, Val{ u(0.0) }, m) : m); return true;
        }
        r.push_back(Val{ u(std::copysign(d(a[0].c), d(a[1].c))) }); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma:
        r.push_back(fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2])); return true;
    case Intrinsic::umax: r.push_back(selectV(icmp(CmpInst::ICMP_UGT, w, a[0], a[1]), a[0], a[1], w)); return true;
    case Intrinsic::umin: r.push_back(selectV(icmp(CmpInst::ICMP_ULT, w, a[0], a[1]), a[0], a[1], w)); return true;
    case Intrinsic::smax: r.push_back(selectV(icmp(CmpInst::ICMP_SGT, w, a[0], a[1]), a[0], a[1], w)); return true;
    case Intrinsic::smin: r.push_back(selectV(icmp(CmpInst::ICMP_SLT, w, a[0], a[1]), a[0], a[1], w)); return true;
    case Intrinsic::abs: r.push_back(selectV(icmp(CmpInst::ICMP_SLT, w, a[0], Val{ 0 }), binop(Instruction::Sub, II, t, Val{ 0 }, a[0]), a[0], w)); return true;
    case Intrinsic::usub_sat: r.push_back(selectV(icmp(CmpInst::ICMP_UGT, w, a[0], a[1]), binop(Instruction::Sub, II, t, a[0], a[1]), Val{ 0 }, w)); return true;
    case Intrinsic::uadd_sat: { Val s = binop(Instruction::Add, II, t, a[0], a[1]); r.push_back(selectV(icmp(CmpInst::ICMP_ULT, w, s, a[0]), Val{ maskw(~0ull, w) }, s, w)); return true; }
    case Intrinsic::is_constant: r.push_back(Val{ 0 }); return true;
    case Intrinsic::objectsize: r.push_back(Val{ maskw(~0ull, w) }); return true;
    case Intrinsic::is_fpclass: {
        uint64_t m = a[1].c;
        if (a[0].s) {
            if (opt.fpMode) unsupported("fp class test");
            z3::expr x = real(a[0]);
            bool z = branch(x == 0, "fpclass zero");
            if (z) { r.push_back(Val{ (m & (32 | 64)) != 0 }); return true; }
            bool neg = branch(x < 0, "fpclass sign");
            r.push_back(Val{ (m & (neg ? 8 : 256)) != 0 }); return true;
        }
        double x = d(a[0].c); bool n = std::signbit(x); uint64_t c;
        switch (std::fpclassify(x)) { case FP_NAN: c = 2; break; case FP_INFINITE: c = n ? 4 : 512; break; case FP_ZERO: c = n ? 32 : 64; break; case FP_SUBNORMAL: c = n ? 16 : 128; break; default: c = n ? 8 : 256; }
        r.push_back(Val{ (m & c) != 0 }); return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
        uint64_t x = a[0].s ? concretize(a[0], w, "bit intrinsic") : a[0].c, y = 0;
        switch (II->getIntrinsicID()) {
        case Intrinsic::ctlz: y = x ? __builtin_clzll(x) - (64 - w) : w; break;
        case Intrinsic::cttz: y = x ? __builtin_ctzll(x) : w; break;
        case Intrinsic::ctpop: y = __builtin_popcountll(x); break;
        default: y = __builtin_bswap64(x) >> (64 - w); }
        r.push_back(Val{ y }); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        bool l = II->getIntrinsicID() == Intrinsic::fshl;
        if (w > 64) unsupported("fsh");
        if (a[2].s) unsupported("symbolic funnel shift");
        unsigned s = a[2].c % w;
        if (s == 0) { r.push_back(l ? a[0] : a[1]); return true; }
        unsigned sl = l ? s : w - s;
        Val hi = binop(Instruction::Shl, II, t, a[0], Val{ sl }), lo = binop(Instruction::LShr, II, t, a[1], Val{ w - sl });
        r.push_back(binop(Instruction::Or, II, t, hi, lo)); return true;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned iw = II->getArgOperand(0)->getType()->getIntegerBitWidth();
        auto id = II->getIntrinsicID();
        bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow;
        if (!a[0].s && !a[1].s) {
            __int128 x = sg ? (__int128) sx(a[0].c, iw) : (__int128) a[0].c, y = sg ? (__int128) sx(a[1].c, iw) : (__int128) a[1].c;
            __int128 z = mul ? x * y : add ? x + y : x - y;
            uint64_t c = maskw((uint64_t) z, iw);
            bool of = sg ? z != (__int128) sx(c, iw) : z != (__int128) c;
            r.push_back(Val{ c }); r.push_back(Val{ of }); return true;
        }
        z3::expr x = bv(a[0], iw), y = bv(a[1], iw);
        z3::expr X = sg ? z3::sext(x, iw + 1) : z3::zext(x, iw + 1), Y = sg ? z3::sext(y, iw + 1) : z3::zext(y, iw + 1);
        z3::expr Z = mul ? X * Y : add ? X + Y : X - Y;
        z3::expr c = Z.extract(iw - 1, 0);
        r.push_back(fromBV(c, iw)); r.push_back(fromBool(Z != (sg ? z3::sext(c, iw + 1) : z3::zext(c, iw + 1)))); return true;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap", "", nullptr); return true;
    case Intrinsic::load_relative: {
        uint64_t p = ptr(a[0]), o = a[1].s ? concretize(a[1], 64, "table offset") : a[1].c;
        Val v = loadBits(p + o, 4, nullptr); r.push_back(Val{ p + (uint64_t) (int64_t) (int32_t) v.c }); return true;
    }
    default: unsupported("intrinsic " + II->getCalledFunction()->getName().str());
    }
}

Val Exec::selectV(const Val& c, const Val& x, const Val& y, unsigned w)
{
    if (!c.s) return (c.c & 1) ? x : y;
    if (!x.s && !y.s && x.c == y.c) return x;
    if (w == 1) return fromBool(z3::ite(boolean(c), boolean(x), boolean(y)));
    return fromBV(z3::ite(boolean(c), bv(x, w), bv(y, w)), w);
}

void Exec::doCall(Frame& fr, const DInst& di)
{
    auto* cb = cast<CallBase>(di.I);
    std::vector<Val>& args = argTmp; args.clear();
    unsigned na = cb->arg_size();
    for (unsigned i = 0; i < na; ++i) {
        Type* t = cb->getArgOperand(i)->getType();
        if (t->isMetadataTy()) { args.push_back(Val{}); continue; }
        unsigned n = std::max(1u, leaves(t));
        for (unsigned k = 0; k < n; ++k) args.push_back(get(fr, di.ops[i], k));
    }
    std::vector<Val> res;
    pendingExc = -1;
    FnInfo* callee = di.callee;
    int h = di.handler;
    if (auto* II = dyn_cast<IntrinsicInst>(di.I)) {
        std::vector<Val> a = args;
        intrinsic(fr, di, II, a, res);
        Frame& f2 = stack.back();
        setResult(f2, di, res.data(), res.size());
        return;
    }
    void* np = nullptr; std::string nname;
    if (!callee) {
        if (cb->isInlineAsm()) unsupported("inline assembly");
        uint64_t a = ptr(get(fr, di.ops.back()));
        auto it = fnByAddr.find(a);
        if (it != fnByAddr.end()) { callee = it->second; h = handlerFor(callee->F->getName().str()); }
        else {
            if (a < 65536) throw MemError{ "call through null pointer" };
            np = (void*) a; nname = "<indirect>";
            Dl_info inf; if (dladdr(np, &inf) && inf.dli_sname) nname = inf.dli_sname;
            if (!M.nativeMapped(a, 1)) throw MemError{ "call through wild pointer" };
            h = handlerFor(nname);
        }
    }
    if (h >= 0) {
        std::vector<Val> a = args;
        intercept(h, cb, a, res);
    } else if (callee && !callee->F->isDeclaration()) {
        if (callee->F->isVarArg()) unsupported("variadic IR function");
        std::vector<Val> a = args;
        std::vector<uint64_t> copies;
        unsigned ai = 0;
        for (unsigned i = 0; i < na; ++i) {
            if (cb->isByValArgument(i)) {
                uint64_t n = dl.getTypeAllocSize(cb->getParamByValType(i)), src = ptr(a[ai]);
                uint64_t c = M.alloc(n, AK::Stack); copyMem(c, src, n); a[ai] = Val{ c }; copies.push_back(c);
            }
            ai += std::max(1u, leaves(cb->getArgOperand(i)->getType()));
        }
        enter(callee, a);
        for (auto c : copies) stack.back().allocas.push_back(c);
        return;
    } else {
        if (!np) {
            nname = callee->F->getName().str();
            np = dlsym(RTLD_DEFAULT, nname.c_str());
            if (!np) unsupported("external function " + nname);
        }
        std::vector<Val> a = args;
        nativeCall(cb, nname, np, a, res);
    }
    if (pendingExc >= 0) { throwExc(pendingExc); return; }
    Frame& f2 = stack.back();
    setResult(f2, di, res.data(), std::min<size_t>(res.size(), di.n));
    if (di.op == Instruction::Invoke) jump(f2, di.t0);
}

// ------------------------------------------------------------------ main loop
void Exec::step()
{
    Frame& fr = stack.back();
    const DInst& di = fr.f->code[fr.pc++];
    ++instrs;
    if ((++pathInstr & 0xfffff) == 0) {
        if (pathInstr > opt.maxInstr) throw PathEnd{ PathEnd::Limit, "instruction limit" };
        if (nowSec() - pathStart > opt.pathTime || nowSec() > deadline) throw PathEnd{ PathEnd::Limit, "path time" };
    }
    switch (di.op) {
    case Instruction::Ret: {
        Val tmp[16]; unsigned n = 0;
        if (!di.ops.empty()) {
            n = leaves(di.I->getOperand(0)->getType());
            if (n > 16) unsupported("large return value");
            for (unsigned k = 0; k < n; ++k) tmp[k] = get(fr, di.ops[0], k);
        }
        ret(tmp, n); return;
    }
    case Instruction::Br:
        if (di.t1 < 0) { jump(fr, di.t0); return; }
        { Val c = get(fr, di.ops[0]); bool b = c.s ? branchV(c, "branch") : (c.c & 1); jump(fr, b ? di.t0 : di.t1); return; }
    case Instruction::Switch: {
        Val c = get(fr, di.ops[0]);
        if (!c.s) { for (auto& k : di.gep) if (k.second == c.c) { jump(fr, k.first); return; } jump(fr, di.t0); return; }
        for (auto& k : di.gep) if (branch(bv(c, di.w) == S.ctx.bv_val(k.second, di.w), "switch")) { jump(fr, k.first); return; }
        jump(fr, di.t0); return;
    }
    case Instruction::Unreachable: violation("abort", "unreachable code reached", "", nullptr); return;
    case Instruction::Resume: {
        uint64_t o = get(fr, di.ops[0]).c;
        for (int i = (int) excs.size() - 1; i >= 0; --i) if (excs[i].obj == o) { curExc = i; break; }
        popFrame();
        unwind(); return;
    }
    case Instruction::LandingPad:
        fr.slots[di.dst] = Val{ excs[curExc].obj }; fr.slots[di.dst + 1] = Val{ (uint64_t) lpSel }; return;
    case Instruction::Call: case Instruction::Invoke: doCall(fr, di); return;
    case Instruction::Alloca: {
        uint64_t n = di.aux; Val c = get(fr, di.ops[0]);
        uint64_t cnt = c.s ? concretize(c, 64, "alloca size") : c.c;
        uint64_t a = M.alloc(n * cnt, AK::Stack, false, cast<AllocaInst>(di.I)->getAlign().value());
        fr.allocas.push_back(a); fr.slots[di.dst] = Val{ a }; return;
    }
    case Instruction::Load: {
        uint64_t a = ptr(get(fr, di.ops[0]));
        Type* t = di.I->getType();
        if (di.n == 1 && !t->isAggregateType()) fr.slots[di.dst] = loadLeaf(a, t);
        else { std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(t, 0, lt); for (unsigned k = 0; k < lt.size(); ++k) fr.slots[di.dst + k] = loadLeaf(a + lt[k].second, lt[k].first); }
        return;
    }
    case Instruction::Store: {
        uint64_t a = ptr(get(fr, di.ops[1]));
        Type* t = di.I->getOperand(0)->getType();
        if (!t->isAggregateType() && !t->isVectorTy()) storeLeaf(a, t, get(fr, di.ops[0]));
        else { std::vector<std::pair<Type*, uint64_t>> lt; leafTypes(t, 0, lt); for (unsigned k = 0; k < lt.size(); ++k) storeLeaf(a + lt[k].second, lt[k].first, get(fr, di.ops[0], k)); }
        return;
    }
    case Instruction::GetElementPtr: {
        Val b = get(fr, di.ops[0]);
        uint64_t off = (uint64_t) di.gepConst;
        z3::expr* se = nullptr; z3::expr acc(S.ctx);
        for (unsigned i = 0; i < di.gep.size(); ++i) {
            Val x = get(fr, di.gep[i].first); unsigned w = di.gepw[i];
            if (!x.s) off += (uint64_t) sx(x.c, w) * di.gep[i].second;
            else {
                z3::expr e = bv(x, w); if (w < 64) e = z3::sext(e, 64 - w);
                e = e * S.ctx.bv_val((uint64_t) di.gep[i].second, 64);
                if (se) acc = acc + e; else { acc = e; se = &acc; }
            }
        }
        if (!se && !b.s) { fr.slots[di.dst] = Val{ b.c + off }; return; }
        z3::expr e = bv(b, 64) + S.ctx.bv_val(off, 64); if (se) e = e + acc;
        fr.slots[di.dst] = fromBV(e, 64); return;
    }
    case Instruction::ICmp: {
        Type* t = di.I->getOperand(0)->getType();
        fr.slots[di.dst] = icmp(cast<CmpInst>(di.I)->getPredicate(), t->isIntegerTy() ? t->getIntegerBitWidth() : 64, get(fr, di.ops[0]), get(fr, di.ops[1])); return;
    }
    case Instruction::FCmp: fr.slots[di.dst] = fcmp(cast<CmpInst>(di.I)->getPredicate(), di.I->getOperand(0)->getType(), get(fr, di.ops[0]), get(fr, di.ops[1])); return;
    case Instruction::Select: {
        Val c = get(fr, di.ops[0]);
        Type* t = di.I->getType();
        if (c.s && t->isIntegerTy()) {
            Val x = get(fr, di.ops[1]), y = get(fr, di.ops[2]);
            auto rl = [](const Val& v) { return v.s && (v.s->kind == Sym::REAL || v.s->kind == Sym::LD); };
            if (!rl(x) && !rl(y)) { fr.slots[di.dst] = selectV(c, x, y, t->getIntegerBitWidth()); return; }
        }
        if (c.s && opt.fpMode && t->isDoubleTy()) { fr.slots[di.dst] = fromFP(z3::ite(boolean(c), fpa(get(fr, di.ops[1])), fpa(get(fr, di.ops[2])))); return; }
        bool b = branchV(c, "select");
        for (unsigned k = 0; k < di.n; ++k) fr.slots[di.dst + k] = get(fr, di.ops[b ? 1 : 2], k);
        return;
    }
    case Instruction::ExtractValue: for (unsigned k = 0; k < di.n; ++k) fr.slots[di.dst + k] = get(fr, di.ops[0], di.aux + k); return;
    case Instruction::InsertValue: {
        for (unsigned k = 0; k < di.n; ++k) fr.slots[di.dst + k] = get(fr, di.ops[0], k);
        unsigned n = leaves(di.I->getOperand(1)->getType());
        for (unsigned k = 0; k < n; ++k) fr.slots[di.dst + di.aux + k] = get(fr, di.ops[1], k);
        return;
    }
    case Instruction::FNeg: {
        Type* t = di.I->getType(); Val a = get(fr, di.ops[0]);
        if (t->isX86_FP80Ty() && a.s->kind != Sym::REAL) { pool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), -a.s->ld }); fr.slots[di.dst] = Val{ 0, &pool.back() }; return; }
        if (!a.s) { if (t->isFloatTy()) fr.slots[di.dst] = Val{ a.c ^ 0x80000000ull }; else fr.slots[di.dst] = Val{ u(-d(a.c)) }; return; }
        fr.slots[di.dst] = opt.fpMode ? fromFP(z3::expr(S.ctx, Z3_mk_fpa_neg(S.ctx, fpa(a)))) : fromReal(-real(a)); return;
    }
    case Instruction::Freeze: for (unsigned k = 0; k < di.n; ++k) fr.slots[di.dst + k] = get(fr, di.ops[0], k); return;
    case Instruction::AtomicRMW: {
        auto* A = cast<AtomicRMWInst>(di.I); uint64_t p = ptr(get(fr, di.ops[0])); Type* t = di.I->getType();
        Val o = loadLeaf(p, t), v = get(fr, di.ops[1]);
        Val n;
        if (A->getOperation() == AtomicRMWInst::Add) n = binop(Instruction::Add, di.I, t, o, v);
        else if (A->getOperation() == AtomicRMWInst::Sub) n = binop(Instruction::Sub, di.I, t, o, v);
        else if (A->getOperation() == AtomicRMWInst::Xchg) n = v; else unsupported("atomicrmw");
        storeLeaf(p, t, n); fr.slots[di.dst] = o; return;
    }
    case Instruction::Fence: return;
    default:
        if (auto* C = dyn_cast<CastInst>(di.I)) { fr.slots[di.dst] = castop(C, C->getSrcTy(), C->getDestTy(), get(fr, di.ops[0])); return; }
        if (di.I->isBinaryOp() && !di.I->getType()->isVectorTy()) { fr.slots[di.dst] = binop(di.op, di.I, di.I->getType(), get(fr, di.ops[0]), get(fr, di.ops[1])); return; }
        unsupported(std::string("instruction ") + di.I->getOpcodeName());
    }
}

PathEnd Exec::run(FnInfo* entry, const Prefix& prefix, std::vector<Prefix>& newJobs)
{
    excs.clear(); caught.clear(); curExc = -1;
    stack.clear(); M.reset(); S.resetPath();
    pool.clear(); divCache.clear(); qdef.clear(); keepAst.clear(); inputs.clear(); observed.clear(); observedType.clear(); nameCtr.clear();
    trace.clear(); freshCtr = 0; undefCtr = 0; undefVars.clear(); pathInstr = 0; mallocCtr = 0; mallocLive = 0; faultOn = false; faultsInjected = 0; typeIds.clear();
    prefix_ = &prefix; newJobs_ = &newJobs; pathStart = nowSec();
    auto loop = [&](FnInfo* f) { baseDepth = 0; enter(f, {}); while (!stack.empty()) step(); };
    try {
        try {
            for (auto* c : ctors) loop(c);
            loop(entry);
            return PathEnd{ PathEnd::Done, "" };
        } catch (MemError& e) {
            if (e.what == "arena exhausted") return PathEnd{ PathEnd::Limit, e.what };
            if (e.what.rfind("symbolic", 0) == 0) return PathEnd{ PathEnd::Unsupported, e.what };
            violation("memory", e.what, "", nullptr);
        }
    } catch (PathEnd& e) { return e; }
    catch (z3::exception& e) { return PathEnd{ PathEnd::Unsupported, std::string("z3: ") + e.msg() + " @ " + where() }; }
    catch (std::runtime_error& e) { return PathEnd{ PathEnd::Unsupported, std::string("engine: ") + e.what() + " @ " + where() }; }
    return PathEnd{ PathEnd::Done, "" };
}

} // namespace symx
