#include "exec.hpp"
#include <dlfcn.h>
#include <llvm/ADT/StringExtras.h>
using namespace llvm;
namespace symx {

Exec::Exec(Module& m, const Options& o) : opt(o), mod(m), dl(m.getDataLayout())
{
    S.branchTimeoutMs = o.branchTimeoutMs; S.assertTimeoutMs = o.assertTimeoutMs;
    S.dumpDir = o.dumpDir; S.dumpEvery = o.dumpEvery;
    // Functions first (so that initialisers can take their address)
    uint64_t fa = 0x6f0000000000ull;
    for (auto& F : mod) {
        if (F.isIntrinsic()) { gaddr[&F] = 0; continue; }
        uint64_t a = fa; fa += 16;
        if (F.isDeclaration()) {
            if (void* p = dlsym(RTLD_DEFAULT, F.getName().str().c_str())) a = (uint64_t) p;
        }
        gaddr[&F] = a;
        fnByAddr[a] = info(&F);
    }
    for (auto& G : mod.globals()) {
        if (G.isDeclaration()) {
            void* p = dlsym(RTLD_DEFAULT, G.getName().str().c_str());
            gaddr[&G] = p ? (uint64_t) p : M.alloc(64, AK::Global, true);
        } else {
            uint64_t n = dl.getTypeAllocSize(G.getValueType());
            gaddr[&G] = M.alloc(n, AK::Global, true, G.getAlign().valueOrOne().value());
            memset((void*) gaddr[&G], 0, n);
        }
    }
    for (auto& A : mod.aliases()) gaddr[&A] = addressOf(cast<GlobalValue>(A.getAliaseeObject()));
    for (auto& G : mod.globals()) if (!G.isDeclaration()) initGlobal(gaddr[&G], G.getInitializer());
    if (auto* gc = mod.getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& op : ca->operands())
                if (auto* cs = dyn_cast<ConstantStruct>(op))
                    if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(info(F));
    M.seal();
}

FnInfo* Exec::info(const Function* F)
{
    auto& p = fns[F];
    if (!p) { p = new FnInfo; p->F = F; }
    return p;
}
FnInfo* Exec::fn(const std::string& n)
{
    auto* F = mod.getFunction(n);
    return F && !F->isDeclaration() ? info(F) : nullptr;
}

uint64_t Exec::addressOf(const GlobalValue* g)
{
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* A = dyn_cast<GlobalAlias>(g)) return addressOf(cast<GlobalValue>(A->getAliaseeObject()));
    throw std::runtime_error("no address for " + g->getName().str());
}

unsigned Exec::leaves(Type* t)
{
    if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += leaves(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
    if (t->isVoidTy()) return 0;
    return 1;
}
void Exec::leafTypes(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out)
{
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = dl.getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) leafTypes(s->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        uint64_t es = dl.getTypeAllocSize(a->getElementType());
        for (uint64_t i = 0; i < a->getNumElements(); ++i) leafTypes(a->getElementType(), off + i * es, out);
    } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = dl.getTypeStoreSize(v->getElementType());
        for (uint64_t i = 0; i < v->getNumElements(); ++i) out.push_back({ v->getElementType(), off + i * es });
    } else out.push_back({ t, off });
}

static uint64_t maskw(uint64_t x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }

void Exec::flattenConst(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) { constPool.push_back(Sym{ Sym::BV, ci->getBitWidth(), S.ctx.bv_val(toString(ci->getValue(), 10, false).c_str(), ci->getBitWidth()) }); out.push_back(Val{ 0, &constPool.back() }); }
        else out.push_back(Val{ ci->getZExtValue() });
    }
    else if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (t->isX86_FP80Ty()) {
            APInt b = cf->getValueAPF().bitcastToAPInt();
            long double ld = 0; memcpy(&ld, b.getRawData(), 10);
            constPool.push_back(Sym{ Sym::LD, 80, z3::expr(S.ctx), ld });
            out.push_back(Val{ 0, &constPool.back() });
        } else out.push_back(Val{ cf->getValueAPF().bitcastToAPInt().getZExtValue() });
    }
    else if (isa<ConstantPointerNull>(c)) out.push_back(Val{ 0 });
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        unsigned n = leaves(t); for (unsigned i = 0; i < n; ++i) out.push_back(Val{ 0 });
    }
    else if (auto* g = dyn_cast<GlobalValue>(c)) out.push_back(Val{ addressOf(g) });
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); ++i) flattenConst(cd->getElementAsConstant(i), out);
    }
    else if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) flattenConst(cast<Constant>(op), out); }
    else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        auto one = [&](unsigned i) { std::vector<Val> v; flattenConst(cast<Constant>(ce->getOperand(i)), v); return v.at(0).c; };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(dl, off)) throw std::runtime_error("const gep");
            out.push_back(Val{ one(0) + (uint64_t) off.getSExtValue() }); break;
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc:
            out.push_back(Val{ t->isIntegerTy() ? maskw(one(0), t->getIntegerBitWidth()) : one(0) }); break;
        case Instruction::Add: out.push_back(Val{ maskw(one(0) + one(1), t->getIntegerBitWidth()) }); break;
        case Instruction::Sub: out.push_back(Val{ maskw(one(0) - one(1), t->getIntegerBitWidth()) }); break;
        case Instruction::ICmp: {
            uint64_t a = one(0), b = one(1);
            auto p = ce->getPredicate();
            out.push_back(Val{ (uint64_t) (p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : a < b) }); break;
        }
        default: throw std::runtime_error(std::string("const expr ") + ce->getOpcodeName());
        }
    }
    else throw std::runtime_error("constant kind");
}

int Exec::constant(const Constant* c)
{
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return it->second;
    std::vector<Val> v;
    flattenConst(c, v);
    if (v.empty()) v.push_back(Val{});
    int idx = ~(int) consts.size();
    for (auto& x : v) consts.push_back(x);
    constIdx[c] = idx;
    return idx;
}

void Exec::initGlobal(uint64_t a, const Constant* c)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { auto s = cd->getRawDataValues(); memcpy((void*) a, s.data(), s.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = dl.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(a + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = dl.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(a + i * es, ca->getOperand(i));
        return;
    }
    std::vector<Val> v; flattenConst(c, v);
    if (v.size() == 1 && v[0].s && v[0].s->kind == Sym::LD) { memcpy((void*) a, &v[0].s->ld, 10); return; }
    memcpy((void*) a, &v.at(0).c, dl.getTypeStoreSize(c->getType()));
}

void Exec::decode(FnInfo* f)
{
    f->decoded = true;
    usedFns.push_back(f);
    auto& F = *f->F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, int> bnum;
    unsigned n = 0;
    for (auto& A : F.args()) { slot[&A] = n; f->argSlot.push_back(n); n += std::max(1u, leaves(A.getType())); }
    int b = 0;
    for (auto& BB : F) {
        bnum[&BB] = b++;
        for (auto& I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1u, leaves(I.getType())); }
    }
    f->nslots = n;
    auto opnd = [&](const Value* v) -> int {
        auto it = slot.find(v);
        if (it != slot.end()) return it->second;
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        return constant(ConstantInt::get(Type::getInt64Ty(mod.getContext()), 0));   // metadata, asm, ...
    };
    f->blocks.resize(b);
    for (auto& BB : F) {
        Block& bl = f->blocks[bnum[&BB]];
        bl.first = f->code.size();
        std::map<int, std::vector<PhiMove>> moves;
        for (auto& I : BB) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                std::set<int> seen;
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
                    int pb = bnum[P->getIncomingBlock(i)];
                    if (!seen.insert(pb).second) continue;
                    moves[pb].push_back({ slot[P], opnd(P->getIncomingValue(i)), leaves(P->getType()) });
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DInst di; di.I = &I; di.op = I.getOpcode();
            di.n = leaves(I.getType());
            if (!I.getType()->isVoidTy()) di.dst = slot[&I];
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                for (auto& a : cb->args()) di.ops.push_back(opnd(a));
                di.ops.push_back(opnd(cb->getCalledOperand()));
                const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
                if (auto* CF = dyn_cast<Function>(cv)) {
                    di.handler = handlerFor(CF->getName().str());
                    if (!CF->isIntrinsic()) di.callee = info(CF);
                }
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { di.t0 = bnum[iv->getNormalDest()]; di.t1 = bnum[iv->getUnwindDest()]; }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                di.ops.push_back(opnd(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    if (StructType* st = gi.getStructTypeOrNull()) {
                        di.gepConst += dl.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    } else {
                        uint64_t sz = dl.getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) di.gepConst += ci->getSExtValue() * (int64_t) sz;
                        else { di.gep.push_back({ opnd(gi.getOperand()), sz }); di.gepw.push_back(gi.getOperand()->getType()->getScalarSizeInBits()); }
                    }
                }
            } else {
                for (auto& o : I.operands()) {
                    if (isa<BasicBlock>(o)) { di.ops.push_back(0); continue; }
                    di.ops.push_back(opnd(o));
                }
                if (auto* br = dyn_cast<BranchInst>(&I)) {
                    di.t0 = bnum[br->getSuccessor(0)];
                    if (br->isConditional()) di.t1 = bnum[br->getSuccessor(1)];
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    di.t0 = bnum[sw->getDefaultDest()];
                    di.ops.resize(1);
                    for (auto& c : sw->cases()) { di.gep.push_back({ bnum[c.getCaseSuccessor()], c.getCaseValue()->getZExtValue() }); }
                    di.w = sw->getCondition()->getType()->getIntegerBitWidth();
                } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                    Type* t = ev->getAggregateOperand()->getType(); unsigned off = 0;
                    for (unsigned ix : ev->indices()) {
                        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += leaves(s->getElementType(k)); t = s->getElementType(ix); }
                        else { auto* a = cast<ArrayType>(t); off += ix * leaves(a->getElementType()); t = a->getElementType(); }
                    }
                    di.aux = off;
                } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                    Type* t = iv->getType(); unsigned off = 0;
                    for (unsigned ix : iv->indices()) {
                        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += leaves(s->getElementType(k)); t = s->getElementType(ix); }
                        else { auto* a = cast<ArrayType>(t); off += ix * leaves(a->getElementType()); t = a->getElementType(); }
                    }
                    di.aux = off;
                } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                    di.aux = dl.getTypeAllocSize(al->getAllocatedType());
                }
            }
            f->code.push_back(std::move(di));
        }
        for (auto& kv : moves) bl.phis.push_back({ kv.first, std::move(kv.second) });
    }
}

} // namespace symx
