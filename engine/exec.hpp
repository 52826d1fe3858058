// Symbolic interpreter for LLVM IR.
#pragma once
#include "memory.hpp"
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <functional>
#include <exception>

namespace symx {

struct Sym {
    enum Kind : uint8_t { BV, BOOL, REAL, FP, LD } kind;
    unsigned w;             // bit width for BV
    z3::expr e;
    long double ld = 0;
};

struct Decision {
    enum T : uint8_t { Branch, Eq } t;
    bool choice; bool forced;
    uint64_t val;
};
using Prefix = std::vector<Decision>;

struct PathEnd { enum R { Done, Assume, Infeasible, Unsupported, Limit, Violation } r; std::string why; };

struct Input { std::string name; z3::expr e; char type; };   // type: d double, i int

struct Violation { std::string label, kind, where, detail; std::vector<std::pair<std::string, std::string>> inputs; };

struct Options {
    bool fpMode = false;
    uint64_t maxInstr = 1000000000;
    unsigned maxDecisions = 100000;
    unsigned branchTimeoutMs = 3000, assertTimeoutMs = 20000;
    std::string dumpDir; unsigned dumpEvery = 0;
    double pathTime = 120;
};

struct FnInfo;
struct DInst {
    const llvm::Instruction* I;
    unsigned op;
    int dst = -1;             // first destination slot
    unsigned n = 1;           // number of leaves of the result
    std::vector<int> ops;     // slot (>=0) or constant (~index) of the first leaf of each operand
    unsigned w = 0;           // scalar bit width of interest
    FnInfo* callee = nullptr; // resolved direct IR callee
    int handler = -1;         // resolved intercept
    uint64_t aux = 0;
    std::vector<std::pair<int, uint64_t>> gep;   // (operand slot/const, scale)
    std::vector<unsigned> gepw;
    int64_t gepConst = 0;
    int t0 = -1, t1 = -1;     // successor block numbers
};
struct PhiMove { int dst; int src; unsigned n; };
struct Block { unsigned first; std::vector<std::pair<int, std::vector<PhiMove>>> phis; };   // per predecessor block
struct FnInfo {
    const llvm::Function* F = nullptr;
    bool decoded = false;
    unsigned nslots = 0;
    std::vector<int> argSlot;
    std::vector<DInst> code;
    std::vector<Block> blocks;
    uint64_t calls = 0;
};

struct Frame {
    FnInfo* f;
    std::vector<Val> slots;
    unsigned pc = 0; int block = 0;
    std::vector<uint64_t> allocas;
};


class Exec {
public:
    Exec(llvm::Module& m, const Options& o);

    // run one path following prefix; alternatives discovered are appended to newJobs
    PathEnd run(FnInfo* entry, const Prefix& prefix, std::vector<Prefix>& newJobs);
    FnInfo* fn(const std::string& name);

    SolverCtx S;
    Memory M;
    Options opt;
    double deadline = 1e300;
    std::vector<Violation> violations;
    std::vector<Input> inputs;
    std::vector<std::pair<std::string, Val>> observed; std::vector<char> observedType;
    std::map<std::string, uint64_t> labels, assertsByLabel, unknownByLabel;
    uint64_t instrs = 0, asserts = 0, assertsFolded = 0, assertsSym = 0, assertsDischarged = 0, assertsUnknown = 0, branchUnknown = 0, decisions = 0, forks = 0, tolUsed = 0, rounded = 0;
    std::map<std::string, uint64_t> nativeCalls;
    std::vector<FnInfo*> usedFns;
    std::map<std::string, std::string> modelStrings();   // of all inputs
    bool fillModel();     // make the assignment cover all constraints
    std::string evalObserved(const Val& v, char type);

private:
    llvm::Module& mod;
    llvm::DataLayout dl;
    std::vector<Val> consts;
    std::unordered_map<const llvm::Constant*, int> constIdx;
    std::unordered_map<const llvm::Function*, FnInfo*> fns;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, FnInfo*> fnByAddr;
    std::unordered_map<const llvm::Function*, std::unordered_map<const llvm::Value*, int>> slotMaps;
    std::vector<FnInfo*> ctors;
    std::deque<Sym> pool;
    std::deque<Sym> constPool;
    std::unordered_map<uint64_t, z3::expr> dblCache;
    std::vector<Frame> stack;
    Prefix trace; const Prefix* prefix_ = nullptr; std::vector<Prefix>* newJobs_ = nullptr;
    uint64_t pathInstr = 0; double pathStart = 0;
    unsigned freshCtr = 0, undefCtr = 0;
    std::unordered_set<unsigned> undefVars;
    std::vector<z3::expr> keepAst;
    bool hasUndef(const z3::expr& e);
    std::map<std::pair<unsigned, unsigned>, const Sym*> divCache;
    std::unordered_map<std::string, int> nameCtr;
    bool faultOn = false; unsigned mallocCtr = 0; int faultBudget = 0;
    uint64_t mallocLive = 0;
    // exceptions
    struct Exc { uint64_t obj, ti, adj; std::exception_ptr keep; };
    int pendingExc = -1, lpSel = 0; size_t baseDepth = 0; std::string throwSite;
    std::vector<std::vector<Val>> freeSlots; std::vector<Val> phiTmp, argTmp;
    int faultsInjected = 0;
    std::vector<Exc> excs; std::vector<int> caught;
    int curExc = -1;
    std::unordered_map<uint64_t, int> typeIds;

    // --- decode
    FnInfo* info(const llvm::Function* F);
    void decode(FnInfo* f);
    int constant(const llvm::Constant* c);
    void flattenConst(const llvm::Constant* c, std::vector<Val>& out);
    unsigned leaves(llvm::Type* t);
    void leafTypes(llvm::Type* t, uint64_t off, std::vector<std::pair<llvm::Type*, uint64_t>>& out);
    void initGlobal(uint64_t a, const llvm::Constant* c);
    uint64_t addressOf(const llvm::GlobalValue* g);
    int handlerFor(const std::string& n);

    // --- values
    const Sym* mk(Sym::Kind k, unsigned w, const z3::expr& e);
    z3::expr bv(const Val& v, unsigned w);
    z3::expr boolean(const Val& v);
    z3::expr real(const Val& v);
    z3::expr fpa(const Val& v);
    z3::expr dblConst(double d);
    Val fromBV(const z3::expr& e, unsigned w);
    Val fromBool(const z3::expr& e);
    Val fromReal(const z3::expr& e);
    Val fromFP(const z3::expr& e);
    z3::expr num(const Val& v) { return opt.fpMode ? fpa(v) : real(v); }
    static double d(uint64_t c) { double x; memcpy(&x, &c, 8); return x; }
    static uint64_t u(double x) { uint64_t c; memcpy(&c, &x, 8); return c; }

    // --- decisions
    bool branch(const z3::expr& c, const char* what);
    bool branchV(const Val& v, const char* what);
    uint64_t concretize(const Val& v, unsigned w, const char* what);
    void assume(const z3::expr& c);
    void checkAssert(const z3::expr& good, const std::string& label, const z3::expr* goodTol);
    void violation(const std::string& kind, const std::string& label, const std::string& detail, const z3::expr* bad);
    std::string where();
    void pushAlt(const Decision& d);

    // --- memory
    Val loadLeaf(uint64_t a, llvm::Type* t);
    void storeLeaf(uint64_t a, llvm::Type* t, const Val& v);
    Val loadBits(uint64_t a, unsigned bytes, llvm::Type* t);
    void storeBits(uint64_t a, unsigned bytes, const Val& v);
    void copyMem(uint64_t dst, uint64_t src, uint64_t n);
    Val loadByte(uint64_t a);
    void splitCell(uint64_t p, Memory::Cell c, uint64_t keepLo, uint64_t keepHi);

    // --- ops
    Val binop(unsigned op, const llvm::Instruction* I, llvm::Type* t, const Val& a, const Val& b);
    Val fbin(unsigned op, const Val& a, const Val& b);
    Val ldbin(unsigned op, const Val& a, const Val& b);
    Val widen(const Val& v);
    Val roundFloat(const Val& v);
    long floorSplit(const Val& v);
    Val fromLD(const Val& v);
    Val toLD(const Val& v);
    Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b);
    Val fcmp(unsigned pred, llvm::Type* t, const Val& a, const Val& b);
    Val castop(const llvm::CastInst* C, llvm::Type* from, llvm::Type* to, const Val& v);
    Val fabsV(const Val& a);
    Val fdivReal(const Val& a, const Val& b);
    z3::expr canon(const z3::expr& e);
    bool ivHolds(const z3::expr& e);
    z3::expr shrink(const z3::expr& e);
    bool cancel(const z3::expr& q, const z3::expr& y, Val& out);
    std::unordered_map<unsigned, std::pair<z3::expr, z3::expr>> qdef;

    // --- calls
    void doCall(Frame& fr, const DInst& di);
    void enter(FnInfo* f, const std::vector<Val>& args);
    void ret(const Val* v, unsigned n);
    void popFrame();
    void fillMem(uint64_t p, const Val& b, uint64_t n);
    Val selectV(const Val& c, const Val& x, const Val& y, unsigned w);
    void setResult(Frame& fr, const DInst& di, const Val* v, unsigned n);
    bool intercept(int h, const llvm::CallBase* cb, const std::vector<Val>& args, std::vector<Val>& res);
    void nativeCall(const llvm::CallBase* cb, const std::string& name, void* p, const std::vector<Val>& args, std::vector<Val>& res);
    bool intrinsic(Frame& fr, const DInst& di, const llvm::IntrinsicInst* II, const std::vector<Val>& args, std::vector<Val>& res);
    void throwExc(int e);
    void unwind();
    bool catches(uint64_t catchTi, int e, uint64_t* adj);
    void jump(Frame& fr, int to);
    void step();
    std::string cstr(const Val& v);
    Val get(Frame& fr, int o, unsigned k = 0) { return o >= 0 ? fr.slots[o + k] : consts[~o + k]; }
    [[noreturn]] void unsupported(const std::string& w) { throw PathEnd{ PathEnd::Unsupported, w + " @ " + where() }; }
    uint64_t ptr(const Val& v) { return v.s ? concretize(v, 64, "pointer") : v.c; }
    Val doAlloc(uint64_t n, AK k, uint64_t align = 16);
    void doFree(uint64_t p, AK k);
    Val newInput(const std::string& name, char type, unsigned w);
};

} // namespace symx
