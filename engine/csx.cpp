// csx: bounded symbolic executor for LLVM IR of the CETL harnesses.
//
// Every symbolic input of a harness becomes a bit-vector variable.  The executor follows all feasible paths (z3
// decides feasibility), checks the harness' assertions with z3, and checks memory safety, lifetime of heap and
// stack objects, alignment, uncaught exceptions, termination and dependence on uninitialised memory.
#include "expr.hpp"

#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Demangle/Demangle.h>

#include <chrono>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>

using namespace llvm;
using csx::Expr;
using csx::Op;
using csx::Sat;

namespace
{
struct Val
{
    const Expr*             e   = nullptr;
    uint64_t                c   = 0;
    const std::vector<Val>* agg = nullptr;
    uint32_t                w   = 0;
    bool                    sym() const { return e != nullptr; }
};

enum class BK : uint8_t { Conc, Sym, Uninit };
struct Byte
{
    const Expr* e = nullptr;
    uint8_t     v = 0;  // concrete value or byte index into e
    BK          k = BK::Uninit;
};

enum class OK_ : uint8_t { Global, Stack, Malloc, New, NewArr, Exception };
struct Obj
{
    uint64_t          base = 0, size = 0;
    OK_               kind = OK_::Global;
    bool              alive = true, writable = true, live = true;  // live: lifetime markers
    uint32_t          seq = 0;
    std::vector<Byte> bytes;
};
using ObjP = std::shared_ptr<Obj>;

struct DInst
{
    const Instruction* I;
    int                dest = -1;
    std::vector<int>   ops;
    bool               covered = false;
    // GEP: constant offset and (operand, scale, width) terms
    int64_t gepConst = 0;
    std::vector<std::pair<int, uint64_t>> gepTerms;
    std::vector<unsigned> succ;  // basic block numbers
};
struct FuncInfo
{
    const Function*                        F;
    std::vector<DInst>                     code;
    std::vector<unsigned>                  bbStart;
    std::map<const BasicBlock*, unsigned>  bbNum;
    unsigned                               nregs = 0;
    std::vector<int>                       argRegs;
    bool                                   entered = false;
    std::vector<int>                       ipdom;  // immediate post-dominator of each block, -1 if none
};
struct Frame
{
    FuncInfo*             fi;
    unsigned              pc     = 0;
    unsigned              bb     = 0;
    std::vector<Val>      regs;
    std::vector<uint64_t> allocas;
    bool                  detached = false;  // frame started by the executor: drop the return value, do not advance caller
};
struct Exc
{
    uint64_t obj = 0, type = 0, dtor = 0;
    int      handlers = 0;
    bool     rethrown = false;
};
struct Thread
{
    std::vector<Frame>    stack;
    std::vector<uint64_t> caught;
    uint64_t              lpObj = 0;
    uint64_t              lpSel = 0;
    bool                  done = false, joining = false;
    int                   uncaught = 0;
};
struct State
{
    std::vector<ObjP>        glob, heap, stk;
    std::vector<Thread>      thr;
    unsigned                 cur = 0;
    std::vector<const Expr*> pc;
    std::vector<uint64_t>    model;
    std::vector<uint32_t>    inputs;  // symbol indices in creation order
    std::vector<std::string> inputNames;
    std::map<uint64_t, Exc>  excs;
    std::vector<Val>         log;
    uint64_t                 heapNext, stkNext;
    uint32_t                 seq = 0, nUninit = 0;
    uint64_t                 steps = 0;
    int                      expectTerm = 0;
    bool                     merge = false;  // join the two arms of a branch where possible
    uint32_t                 depth = 0;
    uint64_t                 shardAcc = 0;
    uint32_t                 shardCalls = 0;
};
using StateP = std::unique_ptr<State>;

struct PathEnd { enum K { Ok, Infeasible, Error, Terminated, Limit, Dropped } k; };

struct ErrorRec
{
    std::string              kind, msg, func, file;
    unsigned                 line = 0;
    std::vector<std::string> stack;
    std::vector<std::pair<std::string, uint64_t>> inputs;
    bool                     tainted = false;
};

struct Options
{
    std::string module, entry = "vx_main", out, src = "/repo/include";
    double      maxTime  = 600;
    uint64_t    maxSteps = 2000000, maxPaths = 10000000;
    unsigned    queryMs = 20000, samples = 8, maxErrors = 12, shard = 0, shards = 1;
    unsigned    iteMax = 64;
    uint64_t    memMB   = 6000;
    bool        trace   = false;
};

class Engine
{
public:
    Engine(Module& M, Options o) : M_(M), DL_(M.getDataLayout()), o_(o), sol_(em_, o.queryMs) {}
    int run();

private:
    Module&           M_;
    const DataLayout& DL_;
    Options           o_;
    csx::ExprMgr      em_;
    csx::Solver       sol_;
    std::vector<StateP>                         work_;
    std::map<const Function*, std::unique_ptr<FuncInfo>> funcs_;
    std::vector<Val>                            pool_;
    std::map<const Constant*, int>              poolIdx_;
    std::map<const GlobalVariable*, uint64_t>   gaddr_;
    std::map<uint64_t, const GlobalVariable*>   gaddrRev_;
    std::map<const Function*, uint64_t>         faddr_;
    std::map<uint64_t, const Function*>         faddrRev_;
    std::map<std::pair<unsigned, unsigned>, uint32_t> inSym_;  // (ordinal,width)->symbol
    std::vector<uint32_t>                       uninitSym_;
    std::map<std::string, ErrorRec>             errors_;
    std::map<std::string, uint64_t>             reach_;
    std::set<std::string>                       unsupported_;
    uint64_t paths_ = 0, pathsOk_ = 0, pathsInf_ = 0, pathsErr_ = 0, pathsTerm_ = 0, pathsLimit_ = 0, forks_ = 0, steps_ = 0, dropped_ = 0;
    uint64_t merges_ = 0, mergeFails_ = 0;
    uint64_t asserts_ = 0, assertsSym_ = 0, assertQ_ = 0, memChecks_ = 0;
    bool     timedOut_ = false, memOut_ = false, errCap_ = false;
    uint64_t unknown_ = 0;
    struct Sample { std::vector<std::pair<std::string, uint64_t>> in; std::vector<uint64_t> log; bool term; };
    std::vector<Sample> samples_;
    uint64_t sampleSeen_ = 0;
    std::chrono::steady_clock::time_point t0_;

    // --- values
    static Val cv(uint64_t c, unsigned w) { Val v; v.c = c & csx::maskw(w); v.w = w; return v; }
    Val  ev(const Expr* e) { if (e->op == Op::Const) return cv(e->k, e->w); Val v; v.e = e; v.w = e->w; return v; }
    const Expr* ex(const Val& v) { return v.e ? v.e : em_.constant(v.c, v.w); }
    Val  binv(Op op, const Val& a, const Val& b)
    {
        if (!a.e && !b.e) return cv(csx::foldBin(op, a.c, b.c, a.w), (op >= Op::Eq && op <= Op::Sle) ? 1 : a.w);
        return ev(em_.bin(op, ex(a), ex(b)));
    }
    Val aggv(std::vector<Val> v) { Val r; r.agg = new std::vector<Val>(std::move(v)); return r; }

    // --- setup
    void      layoutGlobals(State& S);
    void      initGlobal(State& S, Obj& o, uint64_t off, const Constant* C);
    FuncInfo* info(const Function* F);
    int       constIdx(const Constant* C);
    Val       constVal(const Constant* C);
    Val       undefVal(Type* T, State* S);
    unsigned  bitsOf(Type* T) { return T->isPointerTy() ? 64 : (unsigned) DL_.getTypeSizeInBits(T); }

    // --- state helpers
    Thread& th(State& S) { return S.thr[S.cur]; }
    Frame&  fr(State& S) { return S.thr[S.cur].stack.back(); }
    Val     opv(State& S, const DInst& D, unsigned i)
    {
        const int k = D.ops[i];
        Val v = k >= 0 ? fr(S).regs[k] : pool_[~k];
        if (!v.w && !v.agg) return undefVal(D.I->getOperand(i)->getType(), &S);
        return v;
    }
    void setReg(State& S, const DInst& D, Val v) { if (D.dest >= 0) fr(S).regs[D.dest] = v; }
    void addC(State& S, const Expr* e)
    {
        if (e->op == Op::Const) return;
        if (e->op == Op::And && e->w == 1) { addC(S, e->a); addC(S, e->b); return; }
        S.pc.push_back(e);
    }
    StateP clone(State& S) { ++forks_; return std::make_unique<State>(S); }
    Val    freshUninit(State& S);
    Val    newInput(State& S, const std::string& name, unsigned w);
    uint64_t concretize(State& S, const Val& v, const char* why);
    bool   fork(State& S, const Val& cond, StateP& other, bool& otherVal);
    void   taintCheck(State& S, const Val& cond, const char* what);
    bool   runArm(State& S, size_t depth, FuncInfo* fi, unsigned bb, size_t pcs, size_t works);
    bool   mergeInto(State& A, const State& B, const Expr* cond);
    bool   tryMerge(State& S, const Val& cond, DInst& D);
    int    ipdomOf(FuncInfo* fi, unsigned bb);

    // --- memory
    Obj*    find(State& S, uint64_t a, std::vector<ObjP>** vec, size_t* idx);
    Obj&    wr(std::vector<ObjP>& v, size_t i) { if (v[i].use_count() > 1) v[i] = std::make_shared<Obj>(*v[i]); return *v[i]; }
    uint64_t allocStack(State& S, uint64_t size, uint64_t align);
    uint64_t allocHeap(State& S, uint64_t size, OK_ k, uint64_t align = 16);
    void    heapFree(State& S, uint64_t a, OK_ k, const char* what);
    void    checkRange(State& S, uint64_t a, uint64_t n, bool write, std::vector<ObjP>** vec, size_t* idx);
    Val     readBytes(State& S, std::vector<ObjP>& vec, size_t idx, uint64_t off, unsigned n);
    void    writeBytes(Obj& o, uint64_t off, unsigned n, const Val& v);
    Val     load(State& S, const Val& addr, Type* T, uint64_t align);
    void    store(State& S, const Val& addr, Type* T, const Val& v, uint64_t align);
    Val     loadScalar(State& S, const Val& addr, unsigned bits, uint64_t align);
    void    storeScalar(State& S, const Val& addr, unsigned bits, const Val& v, uint64_t align);
    void    symResolve(State& S, const Val& addr, uint64_t n, bool write, std::vector<ObjP>** vec, size_t* idx);
    void    copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n, bool overlapOk);
    std::string cstr(State& S, uint64_t a);

    // --- control
    void step(State& S);
    void gotoBB(State& S, unsigned bb);
    void advance(State& S) { ++fr(S).pc; }
    void finishCall(State& S, const DInst& D, Val r);  // builtin returned: set result and move on
    void enter(State& S, const Function* F, std::vector<Val> args, const CallBase* CB);
    void doRet(State& S, Val v, bool has);
    void popFrame(State& S);
    void doCall(State& S, DInst& D);
    bool intrinsic(State& S, DInst& D, const Function* F);
    bool builtin(State& S, DInst& D, const Function* F);
    void doThrow(State& S, uint64_t obj);
    void unwind(State& S, uint64_t obj);
    void throwStd(State& S, const char* tiName);
    bool derives(uint64_t thrown, uint64_t target);
    bool matchLP(const LandingPadInst* LP, uint64_t type, uint64_t& sel);
    uint64_t typeSel(uint64_t ti) { return ti ? 1 + (ti & 0x7fffffff) / 16 : 0x7ffffff0; }
    void endThread(State& S);
    void schedule(State& S);
    [[noreturn]] void terminate(State& S, const std::string& why);
    [[noreturn]] void fail(State& S, const std::string& kind, const std::string& msg, const std::vector<uint64_t>* model = nullptr, bool tainted = false);
    void report(State& S, const std::string& kind, const std::string& msg, const std::vector<uint64_t>& model, bool tainted);
    void check(State& S, const Val& cond, const std::string& kind, const std::string& msg);
    void pathDone(State& S, PathEnd::K k);
    void writeOut(double secs);
    [[noreturn]] void unsupported(State& S, const std::string& what)
    {
        unsupported_.insert(what);
        throw PathEnd{PathEnd::Limit};
    }
};

// ------------------------------------------------------------------------------------------------- constants, globals

int Engine::constIdx(const Constant* C)
{
    auto it = poolIdx_.find(C);
    if (it != poolIdx_.end()) return it->second;
    pool_.push_back(constVal(C));
    const int i    = (int) pool_.size() - 1;
    poolIdx_[C]    = i;
    return i;
}

Val Engine::undefVal(Type* T, State* S)
{
    if (auto* ST = dyn_cast<StructType>(T))
    {
        std::vector<Val> v;
        for (unsigned i = 0; i < ST->getNumElements(); ++i) v.push_back(undefVal(ST->getElementType(i), S));
        return aggv(std::move(v));
    }
    if (auto* AT = dyn_cast<ArrayType>(T))
    {
        std::vector<Val> v;
        for (unsigned i = 0; i < AT->getNumElements(); ++i) v.push_back(undefVal(AT->getElementType(), S));
        return aggv(std::move(v));
    }
    if (!S) return Val{};  // resolved lazily by opv
    const unsigned bits = bitsOf(T);
    Val            r    = freshUninit(*S);
    const Expr*    e    = r.e;
    while (e->w < bits) e = em_.concat(freshUninit(*S).e, e);
    return ev(em_.extract(e, 0, bits));
}

Val Engine::constVal(const Constant* C)
{
    Type* T = C->getType();
    if (auto* CI = dyn_cast<ConstantInt>(C))
    {
        if (CI->getBitWidth() > 64) return Val{};
        return cv(CI->getZExtValue(), CI->getBitWidth());
    }
    if (auto* CF = dyn_cast<ConstantFP>(C))
    {
        APInt b = CF->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() > 64) return cv(b.trunc(64).getZExtValue(), 64);
        return cv(b.getZExtValue(), b.getBitWidth());
    }
    if (isa<ConstantPointerNull>(C)) return cv(0, 64);
    if (auto* F = dyn_cast<Function>(C)) return cv(faddr_.at(F), 64);
    if (auto* G = dyn_cast<GlobalVariable>(C)) return cv(gaddr_.at(G), 64);
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
    if (isa<UndefValue>(C)) return undefVal(T, nullptr);
    if (isa<ConstantAggregateZero>(C))
    {
        std::vector<Val> v;
        const unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned) T->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) v.push_back(constVal(C->getAggregateElement(i)));
        return aggv(std::move(v));
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C))
    {
        std::vector<Val> v;
        const unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned) T->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) v.push_back(constVal(C->getAggregateElement(i)));
        return aggv(std::move(v));
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C))
    {
        switch (CE->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            cast<GEPOperator>(CE)->accumulateConstantOffset(DL_, off);
            Val b = constVal(CE->getOperand(0));
            return cv(b.c + off.getZExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(CE->getOperand(0));
        case Instruction::PtrToInt: case Instruction::Trunc:
        {
            Val b = constVal(CE->getOperand(0));
            return cv(b.c, bitsOf(T));
        }
        case Instruction::IntToPtr:
        {
            Val b = constVal(CE->getOperand(0));
            return cv(b.c, 64);
        }
        case Instruction::Sub: return cv(constVal(CE->getOperand(0)).c - constVal(CE->getOperand(1)).c, bitsOf(T));
        case Instruction::Add: return cv(constVal(CE->getOperand(0)).c + constVal(CE->getOperand(1)).c, bitsOf(T));
        case Instruction::ICmp:
        {
            Val a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1));
            return cv(CE->getPredicate() == CmpInst::ICMP_EQ ? a.c == b.c : a.c != b.c, 1);
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    unsupported_.insert("constant " + os.str());
    return Val{};
}

void Engine::initGlobal(State& S, Obj& o, uint64_t off, const Constant* C)
{
    Type* T = C->getType();
    if (isa<UndefValue>(C)) return;
    if (isa<ConstantAggregateZero>(C))
    {
        const uint64_t n = DL_.getTypeAllocSize(T);
        for (uint64_t i = 0; i < n; ++i) { o.bytes[off + i].k = BK::Conc; o.bytes[off + i].v = 0; }
        return;
    }
    if (auto* ST = dyn_cast<StructType>(T))
    {
        const StructLayout* SL = DL_.getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); ++i) initGlobal(S, o, off + SL->getElementOffset(i), C->getAggregateElement(i));
        return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T))
    {
        const uint64_t es = DL_.getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); ++i) initGlobal(S, o, off + es * i, C->getAggregateElement(i));
        return;
    }
    Val v = constVal(C);
    if (v.w == 0) return;
    const unsigned n = (unsigned) DL_.getTypeStoreSize(T);
    for (unsigned i = 0; i < n; ++i)
    {
        o.bytes[off + i].k = BK::Conc;
        o.bytes[off + i].v = i < 8 ? (uint8_t) (v.c >> (8 * i)) : 0;
    }
}

void Engine::layoutGlobals(State& S)
{
    uint64_t a = 0x10000;
    for (auto& F : M_)
    {
        faddr_[&F]   = a;
        faddrRev_[a] = &F;
        a += 16;
    }
    a = 0x10000000;
    for (auto& G : M_.globals())
    {
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t) DL_.getTypeAllocSize(G.getValueType()) : 0;
        if (G.isDeclaration() && sz < 64) sz = 64;
        uint64_t al = G.getAlign() ? G.getAlign()->value() : DL_.getABITypeAlign(G.getValueType()).value();
        if (al < 16) al = 16;
        // exactly aligned: odd multiple of the alignment
        a = (a + 2 * al - 1) / (2 * al) * (2 * al) + al;
        gaddr_[&G]    = a;
        gaddrRev_[a]  = &G;
        auto o        = std::make_shared<Obj>();
        o->base       = a;
        o->size       = sz;
        o->kind       = OK_::Global;
        o->writable   = !G.isConstant();
        o->bytes.resize(sz);
        S.glob.push_back(o);
        a += sz + 1024;
    }
    size_t i = 0;
    for (auto& G : M_.globals())
    {
        if (G.hasInitializer()) initGlobal(S, *S.glob[i], 0, G.getInitializer());
        ++i;
    }
}

FuncInfo* Engine::info(const Function* F)
{
    auto& p = funcs_[F];
    if (p) return p.get();
    p       = std::make_unique<FuncInfo>();
    auto& f = *p;
    f.F     = F;
    std::map<const Value*, int> reg;
    for (auto& A : F->args())
    {
        reg[&A] = (int) f.nregs;
        f.argRegs.push_back((int) f.nregs++);
    }
    unsigned nb = 0;
    for (auto& B : *F)
    {
        f.bbNum[&B] = nb++;
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) reg[&I] = (int) f.nregs++;
    }
    for (auto& B : *F)
    {
        f.bbStart.push_back((unsigned) f.code.size());
        for (auto& I : B)
        {
            DInst D;
            D.I = &I;
            auto it = reg.find(&I);
            if (it != reg.end()) D.dest = it->second;
            for (unsigned i = 0; i < I.getNumOperands(); ++i)
            {
                const Value* V = I.getOperand(i);
                if (auto* C = dyn_cast<Constant>(V)) D.ops.push_back(~constIdx(C));
                else if (isa<BasicBlock>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) D.ops.push_back(0);
                else D.ops.push_back(reg.at(V));
            }
            if (auto* G = dyn_cast<GetElementPtrInst>(&I))
            {
                unsigned oi = 1;
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++oi)
                {
                    if (StructType* ST = gi.getStructTypeOrNull())
                        D.gepConst += (int64_t) DL_.getStructLayout(ST)->getElementOffset((unsigned) cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    else
                    {
                        const uint64_t sz = DL_.getTypeAllocSize(gi.getIndexedType());
                        if (auto* CI = dyn_cast<ConstantInt>(gi.getOperand())) D.gepConst += CI->getSExtValue() * (int64_t) sz;
                        else D.gepTerms.push_back({(int) oi, sz});
                    }
                }
            }
            if (I.isTerminator())
                for (unsigned i = 0; i < I.getNumSuccessors(); ++i) D.succ.push_back(f.bbNum.at(I.getSuccessor(i)));
            f.code.push_back(std::move(D));
        }
    }
    return &f;
}

// --------------------------------------------------------------------------------------------------------- symbolic

Val Engine::freshUninit(State& S)
{
    const uint32_t k = S.nUninit++;
    while (uninitSym_.size() <= k) uninitSym_.push_back(em_.newSym("uninit" + std::to_string(uninitSym_.size()), 8, true));
    return ev(em_.sym(uninitSym_[k]));
}

Val Engine::newInput(State& S, const std::string& name, unsigned w)
{
    const auto key = std::make_pair((unsigned) S.inputs.size(), w);
    auto       it  = inSym_.find(key);
    if (it == inSym_.end()) it = inSym_.emplace(key, em_.newSym("in" + std::to_string(key.first) + "_" + std::to_string(w), w, false)).first;
    S.inputs.push_back(it->second);
    S.inputNames.push_back(name);
    // A symbol may be reused by another path; its model value there is irrelevant here and it is unconstrained.
    return ev(em_.sym(it->second));
}

void Engine::taintCheck(State& S, const Val& cond, const char* what)
{
    if (!cond.e || !cond.e->tainted) return;
    // Both outcomes possible while all regular inputs are fixed?  Conservative: compare against the current model.
    const uint64_t v = em_.eval(cond.e, S.model);
    auto           m = S.model;
    // fix regular inputs to the model values, vary only the uninitialised bytes
    std::vector<const Expr*> cs = S.pc;
    for (auto s : *cond.e->syms)
        if (!em_.syms[s].uninit) cs.push_back(em_.bin(Op::Eq, em_.sym(s), em_.constant(S.model.size() > s ? S.model[s] : 0, em_.syms[s].w)));
    if (sol_.check(cs, em_.notb(em_.bin(Op::Eq, cond.e, em_.constant(v, cond.w))), m) == Sat::Yes)
        fail(S, "uninitialised", std::string(what) + " depends on uninitialised memory", nullptr, true);
}

uint64_t Engine::concretize(State& S, const Val& v, const char* why)
{
    if (!v.e) return v.c;
    taintCheck(S, v, why);
    const uint64_t k = em_.eval(v.e, S.model);
    const Expr*    eq = em_.bin(Op::Eq, v.e, em_.constant(k, v.w));
    auto           m  = S.model;
    const Sat      r  = sol_.check(S.pc, em_.notb(eq), m);
    if (r == Sat::Unknown) ++unknown_;
    if (r == Sat::Yes)
    {
        auto o   = clone(S);
        o->model = std::move(m);
        addC(*o, em_.notb(eq));
        work_.push_back(std::move(o));
        addC(S, eq);
    }
    return k;
}

// Decide a symbolic 1-bit condition.  Returns the value for S; if both are possible 'other' is a clone (taken before any
// change to S) with the opposite condition.
bool Engine::fork(State& S, const Val& cond, StateP& other, bool& otherVal)
{
    if (!cond.e) return cond.c & 1;
    taintCheck(S, cond, "branch");
    const bool  v  = em_.eval(cond.e, S.model) & 1;
    const Expr* ng = v ? em_.notb(cond.e) : cond.e;
    auto        m  = S.model;
    const Sat   r  = sol_.check(S.pc, ng, m);
    if (r == Sat::Unknown) ++unknown_;
    if (r == Sat::Yes)
    {
        other        = clone(S);
        other->model = std::move(m);
        otherVal     = !v;
        addC(*other, ng);
        addC(S, v ? cond.e : em_.notb(cond.e));
    }
    return v;
}

int Engine::ipdomOf(FuncInfo* fi, unsigned bb)
{
    if (fi->ipdom.empty())
    {
        PostDominatorTree PDT(*const_cast<Function*>(fi->F));
        for (auto& B : *fi->F)
        {
            auto* N = PDT.getNode(const_cast<BasicBlock*>(&B));
            auto* P = N ? N->getIDom() : nullptr;
            fi->ipdom.push_back(P && P->getBlock() ? (int) fi->bbNum.at(P->getBlock()) : -1);
        }
    }
    return fi->ipdom[bb];
}

// Runs one arm of a branch up to the join block.  False when it forks, ends, leaves the function or takes too long.
bool Engine::runArm(State& S, size_t depth, FuncInfo* fi, unsigned bb, size_t pcs, size_t works)
{
    const uint64_t limit = S.steps + 400;
    unsigned first = fi->bbStart[bb];
    while (isa<PHINode>(fi->code[first].I)) ++first;
    for (;;)
    {
        auto& st = S.thr[S.cur].stack;
        if (st.size() < depth) return false;
        if (st.size() == depth && st.back().fi == fi && st.back().bb == bb && st.back().pc == first) return S.pc.size() == pcs;
        if (S.steps > limit) return false;
        step(S);
        if (work_.size() != works) return false;
    }
}

bool Engine::mergeInto(State& A, const State& B, const Expr* cond)
{
    if (A.heap.size() != B.heap.size() || A.stk.size() != B.stk.size() || A.inputs.size() != B.inputs.size() || A.log.size() != B.log.size() ||
        A.excs.size() != B.excs.size() || A.thr.size() != B.thr.size() || A.cur != B.cur || A.expectTerm != B.expectTerm || A.merge != B.merge)
        return false;
    for (size_t t = 0; t < A.thr.size(); ++t)
        if (A.thr[t].stack.size() != B.thr[t].stack.size() || A.thr[t].caught != B.thr[t].caught || A.thr[t].uncaught != B.thr[t].uncaught) return false;
    auto ptrLike = [](const Val& v) { return !v.e && v.c >= 0x10000; };
    // registers of the current frame
    Frame&       fa = A.thr[A.cur].stack.back();
    const Frame& fb = B.thr[B.cur].stack.back();
    if (fa.allocas != fb.allocas) return false;
    for (size_t i = 0; i < fa.regs.size(); ++i)
    {
        Val& x = fa.regs[i];
        const Val& y = fb.regs[i];
        if (x.e == y.e && x.c == y.c && x.w == y.w && x.agg == y.agg) continue;
        if (x.w != y.w || x.agg || y.agg)
        {
            // value defined in one arm only: dead after the join (the join block is reached through phi nodes)
            continue;
        }
        if (x.w == 64 && (ptrLike(x) || ptrLike(y))) return false;
    }
    for (size_t i = 0; i < A.log.size(); ++i)
        if (A.log[i].e != B.log[i].e || A.log[i].c != B.log[i].c) return false;
    std::vector<std::pair<std::vector<ObjP>*, size_t>> diff;
    for (int k = 0; k < 3; ++k)
    {
        auto&       va = k == 0 ? A.glob : k == 1 ? A.heap : A.stk;
        const auto& vb = k == 0 ? B.glob : k == 1 ? B.heap : B.stk;
        for (size_t i = 0; i < va.size(); ++i)
        {
            if (va[i] == vb[i]) continue;
            if (va[i]->base != vb[i]->base || va[i]->size != vb[i]->size || va[i]->alive != vb[i]->alive || va[i]->live != vb[i]->live || va[i]->kind != vb[i]->kind) return false;
            size_t n = 0;
            const auto &p = va[i]->bytes, &q = vb[i]->bytes;
            for (size_t j = 0; j < p.size(); ++j)
                if (p[j].k != q[j].k || p[j].v != q[j].v || p[j].e != q[j].e)
                {
                    if (p[j].k == BK::Uninit || q[j].k == BK::Uninit) return false;
                    if (++n > 32) return false;
                }
            if (n) diff.emplace_back(&va, i);
        }
    }
    // commit
    for (size_t i = 0; i < fa.regs.size(); ++i)
    {
        Val& x = fa.regs[i];
        const Val& y = fb.regs[i];
        if (x.e == y.e && x.c == y.c && x.w == y.w && x.agg == y.agg) continue;
        if (x.w != y.w || x.agg || y.agg || x.w == 0) continue;
        x = ev(em_.ite(cond, ex(x), ex(y)));
    }
    for (auto& d : diff)
    {
        auto&       vb = d.first == &A.glob ? B.glob : d.first == &A.heap ? B.heap : B.stk;
        Obj&        o  = wr(*d.first, d.second);
        const auto& q  = vb[d.second]->bytes;
        for (size_t j = 0; j < o.bytes.size(); ++j)
        {
            Byte& p = o.bytes[j];
            if (p.k == q[j].k && p.v == q[j].v && p.e == q[j].e) continue;
            const Expr* x = p.k == BK::Conc ? em_.constant(p.v, 8) : em_.extract(p.e, p.v * 8u, 8);
            const Expr* y = q[j].k == BK::Conc ? em_.constant(q[j].v, 8) : em_.extract(q[j].e, q[j].v * 8u, 8);
            const Expr* r = em_.ite(cond, x, y);
            if (r->op == Op::Const) { p.k = BK::Conc; p.v = (uint8_t) r->k; p.e = nullptr; }
            else { p.k = BK::Sym; p.v = 0; p.e = r; }
        }
    }
    A.nUninit = std::max(A.nUninit, B.nUninit);
    A.heapNext = std::max(A.heapNext, B.heapNext);
    A.stkNext  = std::max(A.stkNext, B.stkNext);
    A.seq      = std::max(A.seq, B.seq);
    return true;
}

bool Engine::tryMerge(State& S, const Val& cond, DInst& D)
{
    if (!cond.e) return false;
    FuncInfo*    fi    = fr(S).fi;
    const int    join  = ipdomOf(fi, fr(S).bb);
    if (join < 0) return false;
    taintCheck(S, cond, "branch");
    const bool  v  = em_.eval(cond.e, S.model) & 1;
    const Expr* ng = v ? em_.notb(cond.e) : cond.e;
    auto        m  = S.model;
    if (sol_.check(S.pc, ng, m) != Sat::Yes) return false;
    const size_t depth = th(S).stack.size(), works = work_.size();
    auto A = std::make_unique<State>(S);
    auto B = std::make_unique<State>(S);
    B->model = m;
    addC(*A, v ? cond.e : em_.notb(cond.e));
    addC(*B, ng);
    const size_t pa = A->pc.size(), pb = B->pc.size();
    bool ok = false;
    try
    {
        gotoBB(*A, D.succ[v ? 0 : 1]);
        gotoBB(*B, D.succ[v ? 1 : 0]);
        ok = runArm(*A, depth, fi, (unsigned) join, pa, works) && runArm(*B, depth, fi, (unsigned) join, pb, works) &&
             mergeInto(*A, *B, v ? cond.e : em_.notb(cond.e));
    }
    catch (const PathEnd&)
    {
        ok = false;
    }
    if (!ok)
    {
        work_.resize(works);
        ++mergeFails_;
        return false;
    }
    A->pc = S.pc;
    ++merges_;
    S = std::move(*A);
    return true;
}

void Engine::check(State& S, const Val& cond, const std::string& kind, const std::string& msg)
{
    ++asserts_;
    if (!cond.e)
    {
        if (!(cond.c & 1)) fail(S, kind, msg);
        return;
    }
    ++assertsSym_;
    if (!(em_.eval(cond.e, S.model) & 1)) fail(S, kind, msg, nullptr, cond.e->tainted);
    auto      m = S.model;
    const Sat r = sol_.check(S.pc, em_.notb(cond.e), m);
    ++assertQ_;
    if (r == Sat::Unknown) { ++unknown_; return; }
    if (r == Sat::Yes)
    {
        report(S, kind, msg, m, cond.e->tainted);
        addC(S, cond.e);  // continue with the good values
    }
}

// ----------------------------------------------------------------------------------------------------------- memory

Obj* Engine::find(State& S, uint64_t a, std::vector<ObjP>** vec, size_t* idx)
{
    std::vector<ObjP>& v = a < 0x40000000ULL ? S.glob : (a < 0x700000000000ULL ? S.heap : S.stk);
    size_t lo = 0, hi = v.size();
    while (lo < hi)
    {
        const size_t mid = (lo + hi) / 2;
        if (v[mid]->base <= a) lo = mid + 1;
        else hi = mid;
    }
    if (lo == 0) return nullptr;
    Obj* o = v[lo - 1].get();
    if (a > o->base + o->size) return nullptr;
    *vec = &v;
    *idx = lo - 1;
    return o;
}

static uint64_t placeExact(uint64_t next, uint64_t align)
{
    if (align < 1) align = 1;
    return (next + 2 * align - 1) / (2 * align) * (2 * align) + align;
}

uint64_t Engine::allocStack(State& S, uint64_t size, uint64_t align)
{
    if (size > (1 << 22)) unsupported(S, "stack object too large");
    auto o   = std::make_shared<Obj>();
    o->base  = placeExact(S.stkNext, align);
    o->size  = size;
    o->kind  = OK_::Stack;
    o->bytes.resize(size);
    S.stkNext = o->base + size + 256;
    S.stk.push_back(o);
    return o->base;
}

uint64_t Engine::allocHeap(State& S, uint64_t size, OK_ k, uint64_t align)
{
    if (size > (1 << 22)) unsupported(S, "heap object larger than 4 MiB");
    auto o   = std::make_shared<Obj>();
    o->base  = placeExact(S.heapNext, align);
    o->size  = size;
    o->kind  = k;
    o->seq   = S.seq++;
    o->bytes.resize(size);
    S.heapNext = o->base + size + 4096;
    S.heap.push_back(o);
    return o->base;
}

void Engine::heapFree(State& S, uint64_t a, OK_ k, const char* what)
{
    if (a == 0) return;
    std::vector<ObjP>* vec;
    size_t             i;
    Obj*               o = find(S, a, &vec, &i);
    ++memChecks_;
    if (!o || o->base != a) fail(S, "memory", std::string(what) + " of a pointer that was not allocated");
    if (!o->alive) fail(S, "memory", std::string(what) + ": double free");
    if (o->kind != k) fail(S, "memory", std::string(what) + " of memory not obtained from the matching allocation function");
    Obj& w  = wr(*vec, i);
    w.alive = false;
    w.bytes.clear();
    w.bytes.shrink_to_fit();
}

void Engine::checkRange(State& S, uint64_t a, uint64_t n, bool write, std::vector<ObjP>** vec, size_t* idx)
{
    ++memChecks_;
    const char* rw = write ? "write" : "read";
    if (a < 4096) fail(S, "memory", std::string("null pointer ") + rw);
    Obj* o = find(S, a, vec, idx);
    if (!o) fail(S, "memory", std::string("out of bounds or dangling ") + rw + " of " + std::to_string(n) + " bytes");
    if (!o->alive) fail(S, "memory", std::string(rw) + " after free");
    if (!o->live) fail(S, "memory", std::string(rw) + " after end of lifetime of a local object");
    if (a + n > o->base + o->size)
        fail(S, "memory", std::string("out of bounds ") + rw + " of " + std::to_string(n) + " bytes at offset " + std::to_string(a - o->base) + " of object of size " + std::to_string(o->size));
    if (write && !o->writable) fail(S, "memory", "write to constant object");
}

Val Engine::readBytes(State& S, std::vector<ObjP>& vec, size_t idx, uint64_t off, unsigned n)
{
    Obj* o = vec[idx].get();
    bool conc = true, un = false;
    for (unsigned i = 0; i < n; ++i)
    {
        const Byte& b = o->bytes[off + i];
        if (b.k != BK::Conc) conc = false;
        if (b.k == BK::Uninit) un = true;
    }
    if (conc)
    {
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i) v |= (uint64_t) o->bytes[off + i].v << (8 * i);
        return cv(v, n * 8);
    }
    if (un)
    {
        o = &wr(vec, idx);
        for (unsigned i = 0; i < n; ++i)
        {
            Byte& b = o->bytes[off + i];
            if (b.k == BK::Uninit)
            {
                b.e = freshUninit(S).e;
                b.v = 0;
                b.k = BK::Sym;
            }
        }
    }
    const Byte& b0 = o->bytes[off];
    if (b0.k == BK::Sym && b0.v == 0 && b0.e->w == n * 8)
    {
        bool same = true;
        for (unsigned i = 1; i < n && same; ++i)
        {
            const Byte& b = o->bytes[off + i];
            same          = b.k == BK::Sym && b.e == b0.e && b.v == i;
        }
        if (same) return ev(b0.e);
    }
    const Expr* e = nullptr;
    for (unsigned i = 0; i < n; ++i)
    {
        const Byte& b  = o->bytes[off + i];
        const Expr* be = b.k == BK::Conc ? em_.constant(b.v, 8) : em_.extract(b.e, b.v * 8u, 8);
        e              = e ? em_.concat(be, e) : be;
    }
    return ev(e);
}

void Engine::writeBytes(Obj& o, uint64_t off, unsigned n, const Val& v0)
{
    Val v = v0;
    if (v.e && v.w < n * 8) v = ev(em_.zext(v.e, n * 8));
    for (unsigned i = 0; i < n; ++i)
    {
        Byte& b = o.bytes[off + i];
        if (!v.e) { b.k = BK::Conc; b.v = (uint8_t) (v.c >> (8 * i)); b.e = nullptr; }
        else      { b.k = BK::Sym; b.e = v.e; b.v = (uint8_t) i; }
    }
}

// Find the one object a symbolic address can refer to, forking when there are several.
void Engine::symResolve(State& S, const Val& addr, uint64_t n, bool write, std::vector<ObjP>** vec, size_t* idx)
{
    taintCheck(S, addr, "address");
    const uint64_t a = em_.eval(addr.e, S.model);
    checkRange(S, a, n, write, vec, idx);
    Obj*        o   = (**vec)[*idx].get();
    const Expr* inb = em_.bin(Op::Ule, em_.bin(Op::Sub, addr.e, em_.constant(o->base, 64)), em_.constant(o->size - n, 64));
    auto        m   = S.model;
    const Sat   r   = sol_.check(S.pc, em_.notb(inb), m);
    if (r == Sat::Unknown) ++unknown_;
    if (r == Sat::Yes)
    {
        auto c   = clone(S);
        c->model = std::move(m);
        addC(*c, em_.notb(inb));
        work_.push_back(std::move(c));
        addC(S, inb);
    }
}

Val Engine::loadScalar(State& S, const Val& addr, unsigned bits, uint64_t align)
{
    const unsigned     n = (bits + 7) / 8;
    std::vector<ObjP>* vec;
    size_t             idx;
    if (align > 1)
        check(S, binv(Op::Eq, binv(Op::And, addr, cv(align - 1, 64)), cv(0, 64)), "memory", "misaligned read");
    Val r;
    if (!addr.e)
    {
        checkRange(S, addr.c, n, false, &vec, &idx);
        r = readBytes(S, *vec, idx, addr.c - (*vec)[idx]->base, n);
    }
    else
    {
        symResolve(S, addr, n, false, &vec, &idx);
        const uint64_t base = (*vec)[idx]->base, size = (*vec)[idx]->size;
        const uint64_t st    = align > n ? n : (align ? align : 1);
        const uint64_t first = (st - base % st) % st;
        if ((size - n) / st + 1 > o_.iteMax)
        {
            const uint64_t a = concretize(S, addr, "address");
            r                = readBytes(S, *vec, idx, a - base, n);
        }
        else
        {
            const Expr* e = nullptr;
            for (uint64_t o = first; o + n <= size; o += st)
            {
                Val v = readBytes(S, *vec, idx, o, n);
                e     = e ? em_.ite(em_.bin(Op::Eq, addr.e, em_.constant(base + o, 64)), ex(v), e) : ex(v);
            }
            r = ev(e);
        }
    }
    if (bits < n * 8)
    {
        if (r.e) r = ev(em_.extract(r.e, 0, bits));
        else r = cv(r.c, bits);
    }
    return r;
}

void Engine::storeScalar(State& S, const Val& addr, unsigned bits, const Val& v, uint64_t align)
{
    const unsigned     n = (bits + 7) / 8;
    std::vector<ObjP>* vec;
    size_t             idx;
    if (align > 1)
        check(S, binv(Op::Eq, binv(Op::And, addr, cv(align - 1, 64)), cv(0, 64)), "memory", "misaligned write");
    if (!addr.e)
    {
        checkRange(S, addr.c, n, true, &vec, &idx);
        writeBytes(wr(*vec, idx), addr.c - (*vec)[idx]->base, n, v);
        return;
    }
    symResolve(S, addr, n, true, &vec, &idx);
    const uint64_t base = (*vec)[idx]->base, size = (*vec)[idx]->size;
    const uint64_t st = align > n ? n : (align ? align : 1), first = (st - base % st) % st;
    if ((size - n) / st + 1 > o_.iteMax)
    {
        const uint64_t a = concretize(S, addr, "address");
        writeBytes(wr(*vec, idx), a - base, n, v);
        return;
    }
    const Expr* ve = ex(v);
    if (ve->w < n * 8) ve = em_.zext(ve, n * 8);
    Obj& o = wr(*vec, idx);
    for (uint64_t p = first; p + n <= size; p += st)
    {
        const Expr* c = em_.bin(Op::Eq, addr.e, em_.constant(base + p, 64));
        if (c->op == Op::Const && !c->k) continue;
        for (unsigned i = 0; i < n; ++i)
        {
            Val old = readBytes(S, *vec, idx, p + i, 1);
            Val nv  = ev(em_.ite(c, em_.extract(ve, 8 * i, 8), ex(old)));
            writeBytes((*vec)[idx].use_count() > 1 ? wr(*vec, idx) : *(*vec)[idx], p + i, 1, nv);
        }
    }
    (void) o;
}

Val Engine::load(State& S, const Val& addr, Type* T, uint64_t align)
{
    if (auto* ST = dyn_cast<StructType>(T))
    {
        std::vector<Val> v;
        auto*            SL = DL_.getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); ++i) v.push_back(load(S, binv(Op::Add, addr, cv(SL->getElementOffset(i), 64)), ST->getElementType(i), 1));
        return aggv(std::move(v));
    }
    if (auto* AT = dyn_cast<ArrayType>(T))
    {
        std::vector<Val> v;
        const uint64_t   es = DL_.getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); ++i) v.push_back(load(S, binv(Op::Add, addr, cv(es * i, 64)), AT->getElementType(), 1));
        return aggv(std::move(v));
    }
    const unsigned bits = bitsOf(T);
    if (bits > 64 || T->isVectorTy()) unsupported(S, "load of a value wider than 64 bits");
    return loadScalar(S, addr, bits, align);
}

void Engine::store(State& S, const Val& addr, Type* T, const Val& v, uint64_t align)
{
    if (auto* ST = dyn_cast<StructType>(T))
    {
        auto* SL = DL_.getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); ++i)
        {
            Val ei = (*v.agg)[i];
            if (!ei.w && !ei.agg) ei = undefVal(ST->getElementType(i), &S);
            store(S, binv(Op::Add, addr, cv(SL->getElementOffset(i), 64)), ST->getElementType(i), ei, 1);
        }
        return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T))
    {
        const uint64_t es = DL_.getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); ++i)
        {
            Val ei = (*v.agg)[i];
            if (!ei.w && !ei.agg) ei = undefVal(AT->getElementType(), &S);
            store(S, binv(Op::Add, addr, cv(es * i, 64)), AT->getElementType(), ei, 1);
        }
        return;
    }
    const unsigned bits = bitsOf(T);
    if (bits > 64 || T->isVectorTy()) unsupported(S, "store of a value wider than 64 bits");
    storeScalar(S, addr, bits, v, align);
}

void Engine::copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n, bool overlapOk)
{
    if (n == 0) return;
    std::vector<ObjP>*sv, *dv;
    size_t si, di;
    checkRange(S, src, n, false, &sv, &si);
    checkRange(S, dst, n, true, &dv, &di);
    if (!overlapOk && src != dst && src < dst + n && dst < src + n) fail(S, "memory", "memcpy with overlapping ranges");
    const uint64_t    so = src - (*sv)[si]->base;
    std::vector<Byte> tmp((*sv)[si]->bytes.begin() + (long) so, (*sv)[si]->bytes.begin() + (long) (so + n));
    Obj&              d = wr(*dv, di);
    std::copy(tmp.begin(), tmp.end(), d.bytes.begin() + (long) (dst - d.base));
}

std::string Engine::cstr(State& S, uint64_t a)
{
    std::string        r;
    std::vector<ObjP>* v;
    size_t             i;
    Obj*               o = find(S, a, &v, &i);
    if (!o) return "?";
    for (uint64_t k = a - o->base; k < o->size && o->bytes[k].k == BK::Conc && o->bytes[k].v; ++k) r += (char) o->bytes[k].v;
    return r;
}

// ----------------------------------------------------------------------------------------------------------- errors

void Engine::report(State& S, const std::string& kind, const std::string& msg, const std::vector<uint64_t>& model, bool tainted)
{
    ErrorRec r;
    r.kind    = kind;
    r.msg     = msg;
    r.tainted = tainted;
    auto& st  = th(S).stack;
    for (size_t i = st.size(); i-- > 0;)
    {
        const DInst& D = st[i].fi->code[std::min<size_t>(st[i].pc, st[i].fi->code.size() - 1)];
        std::string  s = demangle(st[i].fi->F->getName().str());
        if (const DebugLoc& L = D.I->getDebugLoc())
        {
            s += " at " + L->getFilename().str() + ":" + std::to_string(L.getLine());
            if (r.func.empty())
            {
                r.func = demangle(st[i].fi->F->getName().str());
                r.file = L->getFilename().str();
                r.line = L.getLine();
            }
        }
        r.stack.push_back(s);
        if (r.stack.size() > 24) break;
    }
    std::string key = kind + "|" + msg;
    for (size_t i = 0; i < r.stack.size() && i < 3; ++i) key += "|" + r.stack[i];
    if (errors_.count(key)) return;
    for (size_t i = 0; i < S.inputs.size(); ++i) r.inputs.emplace_back(S.inputNames[i], S.inputs[i] < model.size() ? model[S.inputs[i]] : 0);
    errors_[key] = r;
    if (errors_.size() >= o_.maxErrors) errCap_ = true;
}

void Engine::fail(State& S, const std::string& kind, const std::string& msg, const std::vector<uint64_t>* model, bool tainted)
{
    report(S, kind, msg, model ? *model : S.model, tainted);
    throw PathEnd{PathEnd::Error};
}

void Engine::terminate(State& S, const std::string& why)
{
    if (S.expectTerm) throw PathEnd{PathEnd::Terminated};
    fail(S, "terminate", why);
}

// ---------------------------------------------------------------------------------------------------------- control

void Engine::popFrame(State& S)
{
    Frame& f = fr(S);
    for (auto a : f.allocas)
    {
        size_t lo = 0, hi = S.stk.size();
        while (lo < hi)
        {
            const size_t mid = (lo + hi) / 2;
            if (S.stk[mid]->base < a) lo = mid + 1;
            else hi = mid;
        }
        if (lo < S.stk.size() && S.stk[lo]->base == a) S.stk.erase(S.stk.begin() + (long) lo);
    }
    th(S).stack.pop_back();
}

void Engine::enter(State& S, const Function* F, std::vector<Val> args, const CallBase* CB)
{
    if (th(S).stack.size() > 400) fail(S, "hang", "unbounded recursion");
    FuncInfo* fi = info(F);
    fi->entered  = true;
    Frame f;
    f.fi = fi;
    f.regs.resize(fi->nregs);
    for (size_t i = 0; i < fi->argRegs.size() && i < args.size(); ++i)
    {
        Val a = args[i];
        if (CB && F->hasParamAttribute((unsigned) i, Attribute::ByVal))
        {
            Type*          T  = F->getParamByValType((unsigned) i);
            const uint64_t sz = DL_.getTypeAllocSize(T);
            const uint64_t al = F->getParamAlign((unsigned) i) ? F->getParamAlign((unsigned) i)->value() : 8;
            const uint64_t p  = allocStack(S, sz, al);
            copyMem(S, p, concretize(S, a, "byval"), sz, false);
            f.allocas.push_back(p);
            a = cv(p, 64);
        }
        f.regs[fi->argRegs[i]] = a;
    }
    th(S).stack.push_back(std::move(f));
}

void Engine::gotoBB(State& S, unsigned bb)
{
    Frame&         f    = fr(S);
    const unsigned prev = f.bb;
    const unsigned st   = f.fi->bbStart[bb];
    const BasicBlock* pb = nullptr;
    unsigned       i    = st;
    std::vector<std::pair<int, Val>> vals;
    while (auto* P = dyn_cast<PHINode>(f.fi->code[i].I))
    {
        if (!pb) pb = f.fi->code[f.fi->bbStart[prev]].I->getParent();
        const int k = P->getBasicBlockIndex(pb);
        Val       v = opv(S, f.fi->code[i], (unsigned) k);
        vals.emplace_back(f.fi->code[i].dest, v);
        ++i;
    }
    for (auto& p : vals) f.regs[p.first] = p.second;
    f.bb = bb;
    f.pc = i;
}

void Engine::finishCall(State& S, const DInst& D, Val r)
{
    if (D.dest >= 0) setReg(S, D, r);
    if (isa<InvokeInst>(D.I)) gotoBB(S, D.succ[0]);
    else advance(S);
}

void Engine::doRet(State& S, Val v, bool has)
{
    const bool det = fr(S).detached;
    popFrame(S);
    if (th(S).stack.empty())
    {
        endThread(S);
        return;
    }
    if (det) return;  // caller already positioned
    const DInst& D = fr(S).fi->code[fr(S).pc];
    if (D.dest >= 0 && has) setReg(S, D, v);
    if (isa<InvokeInst>(D.I)) gotoBB(S, D.succ[0]);
    else advance(S);
}

void Engine::endThread(State& S)
{
    th(S).done = true;
    schedule(S);
}

void Engine::schedule(State& S)
{
    bool others = false;
    for (size_t i = 1; i < S.thr.size(); ++i)
        if (!S.thr[i].done) others = true;
    if (S.thr[0].joining && !others) S.thr[0].joining = false;
    if (S.thr[0].done && !others) throw PathEnd{PathEnd::Ok};
    std::vector<unsigned> run;
    for (unsigned i = 0; i < S.thr.size(); ++i)
        if (!S.thr[i].done && !S.thr[i].joining) run.push_back(i);
    if (run.size() == 1)
    {
        S.cur = run[0];
        return;
    }
    Val s = newInput(S, "sched", 8);
    if (S.model.size() <= s.e->k) S.model.resize(s.e->k + 1, 0);
    for (size_t i = 1; i < run.size(); ++i)
    {
        auto c = clone(S);
        addC(*c, em_.bin(Op::Eq, s.e, em_.constant(run[i], 8)));
        c->model[s.e->k] = run[i];
        c->cur = run[i];
        work_.push_back(std::move(c));
    }
    addC(S, em_.bin(Op::Eq, s.e, em_.constant(run[0], 8)));
    S.model[s.e->k] = run[0];
    S.cur = run[0];
}

// ------------------------------------------------------------------------------------------------------- exceptions

static const std::map<std::string, std::string>& stdBases()
{
    static const std::map<std::string, std::string> m = {
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
    return m;
}

bool Engine::derives(uint64_t thrown, uint64_t target)
{
    if (thrown == target) return true;
    auto it = gaddrRev_.find(thrown);
    auto tt = gaddrRev_.find(target);
    if (it == gaddrRev_.end() || tt == gaddrRev_.end()) return false;
    const GlobalVariable* G = it->second;
    if (G->getName() == tt->second->getName()) return true;
    if (!G->hasInitializer())
    {
        auto b = stdBases().find(G->getName().str());
        while (b != stdBases().end())
        {
            if (b->second == tt->second->getName()) return true;
            b = stdBases().find(b->second);
        }
        return false;
    }
    if (auto* CS = dyn_cast<ConstantStruct>(G->getInitializer()))
    {
        for (unsigned i = 2; i < CS->getNumOperands(); ++i)
            if (auto* B = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts()))
                if (derives(gaddr_.at(B), target)) return true;
    }
    return false;
}

bool Engine::matchLP(const LandingPadInst* LP, uint64_t type, uint64_t& sel)
{
    for (unsigned i = 0; i < LP->getNumClauses(); ++i)
    {
        if (LP->isCatch(i))
        {
            const Constant* C = LP->getClause(i);
            if (C->isNullValue())
            {
                sel = typeSel(0);
                return true;
            }
            auto* G = dyn_cast<GlobalVariable>(C->stripPointerCasts());
            if (G && derives(type, gaddr_.at(G)))
            {
                sel = typeSel(gaddr_.at(G));
                return true;
            }
        }
        else
        {
            // filter: matches when the type is not listed
            const Constant* C = LP->getClause(i);
            const unsigned  n = (unsigned) C->getType()->getArrayNumElements();
            bool            listed = false;
            for (unsigned k = 0; k < n; ++k)
                if (auto* G = dyn_cast<GlobalVariable>(C->getAggregateElement(k)->stripPointerCasts()))
                    listed = listed || derives(type, gaddr_.at(G));
            if (!listed)
            {
                sel = (uint64_t) -1;
                return true;
            }
        }
    }
    return false;
}

void Engine::doThrow(State& S, uint64_t obj)
{
    const uint64_t type = S.excs.at(obj).type;
    auto&          st   = th(S).stack;
    bool           found = false;
    for (size_t i = st.size(); i-- > 0 && !found;)
    {
        const DInst& D = st[i].fi->code[st[i].pc];
        if (auto* II = dyn_cast<InvokeInst>(D.I))
        {
            uint64_t sel;
            found = matchLP(II->getLandingPadInst(), type, sel);
        }
        if (st[i].detached) break;
    }
    if (!found)
    {
        auto g = gaddrRev_.find(type);
        terminate(S, "uncaught exception of type " + (g == gaddrRev_.end() ? std::string("?") : demangle(g->second->getName().str())));
    }
    ++th(S).uncaught;
    unwind(S, obj);
}

void Engine::unwind(State& S, uint64_t obj)
{
    const uint64_t type = S.excs.at(obj).type;
    while (!th(S).stack.empty())
    {
        Frame&       f = fr(S);
        const DInst& D = f.fi->code[f.pc];
        if (auto* II = dyn_cast<InvokeInst>(D.I))
        {
            auto*    LP  = II->getLandingPadInst();
            uint64_t sel = 0;
            if (matchLP(LP, type, sel) || LP->isCleanup())
            {
                th(S).lpObj = obj;
                th(S).lpSel = sel;
                gotoBB(S, D.succ[1]);
                return;
            }
        }
        popFrame(S);
    }
    terminate(S, "uncaught exception");
}

void Engine::throwStd(State& S, const char* tiName)
{
    const GlobalVariable* G = M_.getNamedGlobal(tiName);
    uint64_t ti = 0;
    if (G) ti = gaddr_.at(G);
    else
    {
        // Type unknown to the module: find the closest base the module knows.
        auto b = stdBases().find(tiName);
        while (b != stdBases().end() && !ti)
        {
            if (auto* H = M_.getNamedGlobal(b->second)) ti = gaddr_.at(H);
            b = stdBases().find(b->second);
        }
    }
    const uint64_t o = allocHeap(S, 64, OK_::Exception);
    Exc x;
    x.obj = o;
    x.type = ti;
    S.excs[o] = x;
    doThrow(S, o);
}

// -------------------------------------------------------------------------------------------------------- builtins

bool Engine::intrinsic(State& S, DInst& D, const Function* F)
{
    const auto id = F->getIntrinsicID();
    if (id == Intrinsic::not_intrinsic) return false;
    auto arg = [&](unsigned i) { return opv(S, D, i); };
    switch (id)
    {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
        advance(S);
        return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    {
        Val p = arg(1);
        if (!p.e)
        {
            std::vector<ObjP>* v;
            size_t             i;
            Obj*               o = find(S, p.c, &v, &i);
            if (o && o->base == p.c && o->kind == OK_::Stack)
            {
                Obj& w = wr(*v, i);
                w.live = id == Intrinsic::lifetime_start;
                if (w.live)
                    for (auto& b : w.bytes) b = Byte{};
            }
        }
        advance(S);
        return true;
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
    {
        const uint64_t n = concretize(S, arg(2), "memcpy length");
        const uint64_t d = concretize(S, arg(0), "memcpy destination"), s = concretize(S, arg(1), "memcpy source");
        auto* MI = cast<MemTransferInst>(D.I);
        if (n && MI->getDestAlign() && d % MI->getDestAlign()->value()) fail(S, "memory", "misaligned write");
        if (n && MI->getSourceAlign() && s % MI->getSourceAlign()->value()) fail(S, "memory", "misaligned read");
        copyMem(S, d, s, n, id == Intrinsic::memmove);
        advance(S);
        return true;
    }
    case Intrinsic::memset:
    {
        const uint64_t n = concretize(S, arg(2), "memset length"), d = concretize(S, arg(0), "memset destination");
        Val            v = arg(1);
        if (n)
        {
            std::vector<ObjP>* vec;
            size_t             i;
            checkRange(S, d, n, true, &vec, &i);
            Obj& o = wr(*vec, i);
            for (uint64_t k = 0; k < n; ++k) writeBytes(o, d - o.base + k, 1, v);
        }
        advance(S);
        return true;
    }
    case Intrinsic::eh_typeid_for:
        finishCall(S, D, cv(typeSel(arg(0).c), 32));
        return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability:
    case Intrinsic::ptr_annotation:
        finishCall(S, D, arg(0));
        return true;
    case Intrinsic::is_constant: finishCall(S, D, cv(0, 1)); return true;
    case Intrinsic::objectsize: finishCall(S, D, cv(~0ULL, 64)); return true;
    case Intrinsic::trap: terminate(S, "trap instruction");
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
    {
        Val a = arg(0), b = arg(1);
        const bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
        Val lt = binv(sg ? Op::Slt : Op::Ult, a, b);
        const bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
        finishCall(S, D, ev(em_.ite(ex(lt), ex(mx ? b : a), ex(mx ? a : b))));
        return true;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    {
        Val a = arg(0), b = arg(1);
        if (id == Intrinsic::umul_with_overflow)
        {
            if (a.e && b.e) a = cv(concretize(S, a, "factor of a checked multiplication"), a.w);
            if (a.e) std::swap(a, b);
            Val r = binv(Op::Mul, a, b);
            Val ov = a.c == 0 ? cv(0, 1) : binv(Op::Ult, cv(csx::maskw(a.w) / a.c, a.w), b);
            finishCall(S, D, aggv({r, ov}));
        }
        else if (id == Intrinsic::uadd_with_overflow)
        {
            Val r = binv(Op::Add, a, b);
            finishCall(S, D, aggv({r, binv(Op::Ult, r, a)}));
        }
        else
            finishCall(S, D, aggv({binv(Op::Sub, a, b), binv(Op::Ult, a, b)}));
        return true;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    {
        const bool add = id == Intrinsic::sadd_with_overflow;
        Val a = arg(0), b = arg(1), r = binv(add ? Op::Add : Op::Sub, a, b), z = cv(0, a.w);
        // overflow: the result moved the wrong way for the sign of the second operand
        Val down = binv(Op::Slt, r, a), neg = binv(Op::Slt, b, z), up = binv(Op::Slt, a, r), pos = binv(Op::Slt, z, b);
        Val ov = add ? binv(Op::Or, binv(Op::And, down, pos), binv(Op::And, up, neg)) : binv(Op::Or, binv(Op::And, up, pos), binv(Op::And, down, neg));
        finishCall(S, D, aggv({r, ov}));
        return true;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat:
    {
        Val a = arg(0), b = arg(1);
        const bool add = id == Intrinsic::uadd_sat;
        Val r = binv(add ? Op::Add : Op::Sub, a, b), ov = add ? binv(Op::Ult, r, a) : binv(Op::Ult, a, b);
        finishCall(S, D, ev(em_.ite(ex(ov), em_.constant(add ? csx::maskw(a.w) : 0, a.w), ex(r))));
        return true;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::abs: case Intrinsic::bswap:
    {
        Val a = arg(0);
        uint64_t v = concretize(S, a, "bit count");
        uint64_t r = 0;
        if (id == Intrinsic::ctpop) r = (uint64_t) __builtin_popcountll(v);
        else if (id == Intrinsic::ctlz) r = v ? (uint64_t) __builtin_clzll(v) - (64 - a.w) : a.w;
        else if (id == Intrinsic::cttz) r = v ? (uint64_t) __builtin_ctzll(v) : a.w;
        else if (id == Intrinsic::abs) r = (uint64_t) std::llabs(csx::sextw(v, a.w));
        else r = __builtin_bswap64(v) >> (64 - a.w);
        finishCall(S, D, cv(r, a.w));
        return true;
    }
    case Intrinsic::stacksave: case Intrinsic::returnaddress: finishCall(S, D, cv(0, 64)); return true;
    case Intrinsic::stackrestore: advance(S); return true;
    default: unsupported(S, "intrinsic " + F->getName().str());
    }
}

bool Engine::builtin(State& S, DInst& D, const Function* F)
{
    const StringRef n = F->getName();
    auto arg = [&](unsigned i) { return opv(S, D, i); };
    auto done = [&](Val v) { finishCall(S, D, v); return true; };
    if (n.starts_with("__vx_"))
    {
        if (n == "__vx_sym")
        {
            const uint64_t w = arg(1).c;
            const std::string nm = cstr(S, arg(0).c);
            Val v = newInput(S, nm, (unsigned) w);
            return done(w == 64 ? v : ev(em_.zext(v.e, 64)));
        }
        if (n == "__vx_assume")
        {
            Val c = arg(0);
            if (!c.e)
            {
                if (!(c.c & 1)) throw PathEnd{PathEnd::Infeasible};
                return done(Val{});
            }
            if (!(em_.eval(c.e, S.model) & 1))
            {
                const Sat r = sol_.check(S.pc, c.e, S.model);
                if (r == Sat::Unknown) ++unknown_;
                if (r != Sat::Yes) throw PathEnd{PathEnd::Infeasible};
            }
            addC(S, c.e);
            return done(Val{});
        }
        if (n == "__vx_assert")
        {
            Val c = arg(0);
            check(S, c, "assert", cstr(S, arg(1).c));
            return done(Val{});
        }
        if (n == "__vx_concretize")
        {
            const uint64_t v = concretize(S, arg(0), "choice");
            return done(cv(v, 64));
        }
        if (n == "__vx_reach") { ++reach_[cstr(S, arg(0).c)]; return done(Val{}); }
        if (n == "__vx_log") { S.log.push_back(arg(0)); return done(Val{}); }
        if (n == "__vx_expect_terminate") { S.expectTerm = (int) arg(0).c; return done(Val{}); }
        if (n == "__vx_merge") { S.merge = arg(0).c != 0; return done(Val{}); }
        if (n == "__vx_exit_ok") throw PathEnd{PathEnd::Ok};
        if (n == "__vx_shard")
        {
            // The first two values seen on a path decide which shard explores it; a path with fewer runs in every shard.
            if (S.shardCalls == 0) S.shardAcc = arg(0).c;
            else if (S.shardCalls == 1 && (S.shardAcc * 7 + arg(0).c) % o_.shards != o_.shard) throw PathEnd{PathEnd::Dropped};
            ++S.shardCalls;
            return done(Val{});
        }
        if (n == "__vx_leak_check")
        {
            for (auto& h : S.heap)
                if (h->alive && h->kind != OK_::Exception) fail(S, "leak", "memory leaked (" + std::to_string(h->size) + " bytes)");
            return done(Val{});
        }
        if (n == "__vx_spawn")
        {
            const Function* T = faddrRev_.at(arg(0).c);
            Val a = arg(1);
            Thread t;
            S.thr.push_back(t);
            const unsigned c = S.cur;
            advance(S);
            S.cur = (unsigned) S.thr.size() - 1;
            enter(S, T, {a}, nullptr);
            S.cur = c;
            return true;
        }
        if (n == "__vx_yield")
        {
            advance(S);
            if (S.thr.size() > 1) schedule(S);
            return true;
        }
        if (n == "__vx_join")
        {
            advance(S);
            S.thr[S.cur].joining = true;
            schedule(S);
            return true;
        }
        if (n == "__vx_shared")
        {
            std::vector<ObjP>* v;
            size_t             i;
            checkRange(S, concretize(S, arg(0), "address"), 1, false, &v, &i);
            return done(cv((*v)[i]->kind != OK_::Stack, 1));
        }
        if (n == "__vx_thread_id") return done(cv(S.cur, 32));
        unsupported(S, n.str());
    }
    // memory comparison and search
    if (n == "memcmp" || n == "bcmp")
    {
        const uint64_t a = concretize(S, arg(0), "memcmp"), b = concretize(S, arg(1), "memcmp"), len = concretize(S, arg(2), "memcmp length");
        if (len == 0) return done(cv(0, 32));
        std::vector<ObjP>*va, *vb;
        size_t             ia, ib;
        checkRange(S, a, len, false, &va, &ia);
        checkRange(S, b, len, false, &vb, &ib);
        Val r = cv(0, 32);
        for (uint64_t k = len; k-- > 0;)
        {
            const Val x = readBytes(S, *va, ia, a + k - (*va)[ia]->base, 1), y = readBytes(S, *vb, ib, b + k - (*vb)[ib]->base, 1);
            if (!x.sym() && !y.sym())
            {
                if (x.c != y.c) r = cv(x.c < y.c ? uint32_t(-1) : 1, 32);
                continue;
            }
            const Expr *xe = ex(x), *ye = ex(y);
            r = ev(em_.ite(em_.bin(Op::Eq, xe, ye), ex(r), em_.ite(em_.bin(Op::Ult, xe, ye), em_.constant(uint32_t(-1), 32), em_.constant(1, 32))));
        }
        return done(r);
    }
    if (n == "memchr")
    {
        const uint64_t a = concretize(S, arg(0), "memchr"), len = concretize(S, arg(2), "memchr length");
        if (len == 0) return done(cv(0, 64));
        std::vector<ObjP>* va;
        size_t             ia;
        checkRange(S, a, len, false, &va, &ia);
        Val         c  = arg(1);
        const Expr* ce = em_.extract(ex(c), 0, 8);
        Val         r  = cv(0, 64);
        for (uint64_t k = len; k-- > 0;)
        {
            const Val x = readBytes(S, *va, ia, a + k - (*va)[ia]->base, 1);
            r           = ev(em_.ite(em_.bin(Op::Eq, ex(x), ce), em_.constant(a + k, 64), ex(r)));
        }
        return done(r);
    }
    if (n == "strlen")
    {
        const uint64_t     a = concretize(S, arg(0), "strlen");
        std::vector<ObjP>* va;
        size_t             ia;
        checkRange(S, a, 1, false, &va, &ia);
        const uint64_t   room = (*va)[ia]->base + (*va)[ia]->size - a;
        std::vector<Val> bytes;
        bool             ended = false;
        for (uint64_t k = 0; k < room && !ended; ++k)
        {
            bytes.push_back(readBytes(S, *va, ia, a + k - (*va)[ia]->base, 1));
            ended = !bytes.back().sym() && bytes.back().c == 0;
        }
        if (!ended)
        {
            Val any = cv(0, 1);
            for (auto& b : bytes) any = ev(em_.ite(em_.bin(Op::Eq, ex(b), em_.constant(0, 8)), em_.constant(1, 1), ex(any)));
            check(S, any, "memory", "strlen reads past the end of the object");
        }
        Val r = cv(bytes.size(), 64);
        for (uint64_t k = bytes.size(); k-- > 0;) r = ev(em_.ite(em_.bin(Op::Eq, ex(bytes[k]), em_.constant(0, 8)), em_.constant(k, 64), ex(r)));
        return done(r);
    }
    if (n == "memcpy" || n == "memmove")
    {
        const uint64_t d = concretize(S, arg(0), "memcpy"), s = concretize(S, arg(1), "memcpy"), len = concretize(S, arg(2), "memcpy length");
        copyMem(S, d, s, len, n == "memmove");
        return done(cv(d, 64));
    }
    if (n == "memset")
    {
        const uint64_t d = concretize(S, arg(0), "memset"), len = concretize(S, arg(2), "memset length");
        if (len)
        {
            std::vector<ObjP>* vec;
            size_t             i;
            checkRange(S, d, len, true, &vec, &i);
            const Val v = arg(1);
            const Val b = v.sym() ? ev(em_.extract(v.e, 0, 8)) : cv(v.c & 0xFF, 8);
            Obj& o = wr(*vec, i);
            for (uint64_t k = 0; k < len; ++k) writeBytes(o, d - o.base + k, 1, b);
        }
        return done(cv(d, 64));
    }
    // heap
    if (n == "malloc") { const uint64_t sz = concretize(S, arg(0), "malloc size"); return done(cv(allocHeap(S, sz, OK_::Malloc), 64)); }
    if (n == "calloc")
    {
        const uint64_t a = concretize(S, arg(0), "calloc"), b = concretize(S, arg(1), "calloc");
        const uint64_t p = allocHeap(S, a * b, OK_::Malloc);
        for (auto& y : S.heap.back()->bytes) { y.k = BK::Conc; y.v = 0; }
        return done(cv(p, 64));
    }
    if (n == "aligned_alloc")
    {
        const uint64_t al = concretize(S, arg(0), "alignment"), sz = concretize(S, arg(1), "size");
        return done(cv(allocHeap(S, sz, OK_::Malloc, al < 16 ? 16 : al), 64));
    }
    if (n == "free") { heapFree(S, concretize(S, arg(0), "free"), OK_::Malloc, "free"); return done(Val{}); }
    if (n == "realloc")
    {
        const uint64_t p = concretize(S, arg(0), "realloc"), sz = concretize(S, arg(1), "realloc size");
        if (p == 0) return done(cv(allocHeap(S, sz, OK_::Malloc), 64));
        std::vector<ObjP>* v;
        size_t             i;
        Obj*               o = find(S, p, &v, &i);
        if (!o || o->base != p || o->kind != OK_::Malloc) fail(S, "memory", "realloc of a pointer that was not allocated");
        if (!o->alive) fail(S, "memory", "realloc after free");
        if (sz == 0) { heapFree(S, p, OK_::Malloc, "realloc"); return done(cv(0, 64)); }
        const uint64_t os = o->size;
        const uint64_t q  = allocHeap(S, sz, OK_::Malloc);
        copyMem(S, q, p, std::min(os, sz), false);
        heapFree(S, p, OK_::Malloc, "realloc");
        return done(cv(q, 64));
    }
    if (n == "_Znwm" || n == "_ZnwmRKSt9nothrow_t") { const uint64_t sz = concretize(S, arg(0), "new size"); return done(cv(allocHeap(S, sz, OK_::New), 64)); }
    if (n == "_Znam" || n == "_ZnamRKSt9nothrow_t") { const uint64_t sz = concretize(S, arg(0), "new[] size"); return done(cv(allocHeap(S, sz, OK_::NewArr), 64)); }
    if (n == "_ZnamSt11align_val_t" || n == "_ZnamSt11align_val_tRKSt9nothrow_t") { const uint64_t sz = concretize(S, arg(0), "new[] size"), al = concretize(S, arg(1), "align"); return done(cv(allocHeap(S, sz, OK_::NewArr, al < 16 ? 16 : al), 64)); }
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnwmSt11align_val_tRKSt9nothrow_t") { const uint64_t sz = concretize(S, arg(0), "new size"), al = concretize(S, arg(1), "align"); return done(cv(allocHeap(S, sz, OK_::New, al < 16 ? 16 : al), 64)); }
    if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvRKSt9nothrow_t" || n == "_ZdlPvSt11align_val_tRKSt9nothrow_t")
    {
        const uint64_t p = concretize(S, arg(0), "delete");
        if ((n == "_ZdlPvm" || n == "_ZdlPvmSt11align_val_t") && p)
        {
            std::vector<ObjP>* v;
            size_t             i;
            Obj*               o  = find(S, p, &v, &i);
            const uint64_t     sz = concretize(S, arg(1), "delete size");
            if (o && o->base == p && o->alive && o->kind == OK_::New && o->size != sz) fail(S, "memory", "sized delete with wrong size");
        }
        heapFree(S, p, OK_::New, "delete");
        return done(Val{});
    }
    if (n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdaPvRKSt9nothrow_t" || n == "_ZdaPvSt11align_val_t" || n == "_ZdaPvmSt11align_val_t") { heapFree(S, concretize(S, arg(0), "delete[]"), OK_::NewArr, "delete[]"); return done(Val{}); }
    // C++ runtime
    if (n == "__cxa_allocate_exception")
    {
        const uint64_t p = allocHeap(S, concretize(S, arg(0), "exception"), OK_::Exception);
        return done(cv(p, 64));
    }
    if (n == "__cxa_free_exception") return done(Val{});
    if (n == "__cxa_throw")
    {
        Exc x;
        x.obj  = arg(0).c;
        x.type = arg(1).c;
        x.dtor = arg(2).c;
        S.excs[x.obj] = x;
        doThrow(S, x.obj);
        return true;
    }
    if (n == "__cxa_rethrow")
    {
        if (th(S).caught.empty()) terminate(S, "rethrow without an active exception");
        const uint64_t o   = th(S).caught.back();
        S.excs[o].rethrown = true;
        doThrow(S, o);
        return true;
    }
    if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr")
    {
        const uint64_t o = concretize(S, arg(0), "catch");
        if (n == "__cxa_begin_catch")
        {
            auto& x = S.excs.at(o);
            ++x.handlers;
            x.rethrown = false;
            --th(S).uncaught;
            th(S).caught.push_back(o);
        }
        return done(cv(o, 64));
    }
    if (n == "__cxa_end_catch")
    {
        const uint64_t o = th(S).caught.back();
        th(S).caught.pop_back();
        auto& x = S.excs.at(o);
        --x.handlers;
        finishCall(S, D, Val{});
        if (x.handlers == 0 && !x.rethrown && x.dtor)
        {
            const Function* T = faddrRev_.at(x.dtor);
            if (!T->isDeclaration())
            {
                enter(S, T, {cv(o, 64)}, nullptr);
                fr(S).detached = true;
            }
        }
        return true;
    }
    if (n == "_ZSt9terminatev") terminate(S, "std::terminate called");
    if (n == "abort") terminate(S, "abort called");
    if (n == "__cxa_pure_virtual") terminate(S, "pure virtual call");
    if (n == "__assert_fail") 
    {
        if (S.expectTerm) throw PathEnd{PathEnd::Terminated};
        fail(S, "debug-assert", "assertion failed: " + cstr(S, arg(0).c));
    }
    if (n == "__cxa_guard_acquire")
    {
        Val g = loadScalar(S, arg(0), 8, 1);
        if (g.c) return done(cv(0, 32));
        return done(cv(1, 32));
    }
    if (n == "__cxa_guard_release") { storeScalar(S, arg(0), 8, cv(1, 8), 1); return done(Val{}); }
    if (n == "__cxa_guard_abort") return done(Val{});
    if (n == "__cxa_atexit" || n == "atexit") return done(cv(0, 32));
    if (n == "_ZSt18uncaught_exceptionv") return done(cv(th(S).uncaught > 0, 1));
    if (n == "_ZSt19uncaught_exceptionsv") return done(cv((uint64_t) th(S).uncaught, 32));
    if (n == "_ZSt17__throw_bad_allocv") { throwStd(S, "_ZTISt9bad_alloc"); return true; }
    if (n == "_ZSt28__throw_bad_array_new_lengthv") { throwStd(S, "_ZTISt20bad_array_new_length"); return true; }
    if (n == "_ZSt20__throw_length_errorPKc") { throwStd(S, "_ZTISt12length_error"); return true; }
    if (n == "_ZSt20__throw_out_of_rangePKc" || n == "_ZSt24__throw_out_of_range_fmtPKcz") { throwStd(S, "_ZTISt12out_of_range"); return true; }
    if (n == "_ZSt25__throw_bad_function_callv") { throwStd(S, "_ZTISt17bad_function_call"); return true; }
    if (n == "_ZSt24__throw_invalid_argumentPKc") { throwStd(S, "_ZTISt16invalid_argument"); return true; }
    if (n == "_ZSt21__throw_runtime_errorPKc") { throwStd(S, "_ZTISt13runtime_error"); return true; }
    if (n == "_ZSt16__throw_bad_castv") { throwStd(S, "_ZTISt8bad_cast"); return true; }
    if (n == "_ZSt19__throw_logic_errorPKc") { throwStd(S, "_ZTISt11logic_error"); return true; }
    // standard exception classes: no observable behaviour besides their type
    if (n.starts_with("_ZNSt12length_error") || n.starts_with("_ZNSt12out_of_range") || n.starts_with("_ZNSt9bad_alloc") ||
        n.starts_with("_ZNSt9exception") || n.starts_with("_ZNSt11logic_error") || n.starts_with("_ZNSt17bad_function_call") ||
        n.starts_with("_ZNSt16invalid_argument") || n.starts_with("_ZNSt13runtime_error") || n.starts_with("_ZNSt8bad_cast") || n.starts_with("_ZNSt20bad_array_new_length"))
        return done(Val{});
    unsupported(S, "external function " + demangle(n.str()));
}

void Engine::doCall(State& S, DInst& D)
{
    auto*           CB = cast<CallBase>(D.I);
    const Function* F  = CB->getCalledFunction();
    if (!F)
    {
        if (CB->isInlineAsm())
        {
            if (D.dest < 0) { advance(S); return; }
            unsupported(S, "inline assembly");
        }
        if (auto* A = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts()))
            F = dyn_cast<Function>(A->getAliaseeObject());
        if (!F) F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (!F)
        {
            Val            p = opv(S, D, CB->arg_size() + (isa<InvokeInst>(CB) ? 2 : 0));
            const uint64_t a = concretize(S, p, "call target");
            auto           it = faddrRev_.find(a);
            if (it == faddrRev_.end()) fail(S, "memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
            F = it->second;
        }
    }
    if (intrinsic(S, D, F)) return;
    if (F->isDeclaration())
    {
        builtin(S, D, F);
        return;
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < CB->arg_size(); ++i) args.push_back(opv(S, D, i));
    enter(S, F, std::move(args), CB);
}

// ------------------------------------------------------------------------------------------------------------- step

void Engine::step(State& S)
{
    Frame& f = fr(S);
    DInst& D = f.fi->code[f.pc];
    const Instruction* I = D.I;
    D.covered = true;
    ++S.steps;
    ++steps_;
    const unsigned opc = I->getOpcode();
    switch (opc)
    {
    case Instruction::Ret:
        if (I->getNumOperands()) doRet(S, opv(S, D, 0), true);
        else doRet(S, Val{}, false);
        return;
    case Instruction::Br:
    {
        auto* B = cast<BranchInst>(I);
        if (B->isUnconditional()) { gotoBB(S, D.succ[0]); return; }
        StateP other;
        bool   ov = false;
        if (S.merge && tryMerge(S, opv(S, D, 0), D)) return;
        const bool v = fork(S, opv(S, D, 0), other, ov);
        if (other)
        {
            gotoBB(*other, D.succ[ov ? 0 : 1]);
            ++other->depth;
            work_.push_back(std::move(other));
        }
        gotoBB(S, D.succ[v ? 0 : 1]);
        return;
    }
    case Instruction::Switch:
    {
        auto* W = cast<SwitchInst>(I);
        Val   c = opv(S, D, 0);
        uint64_t v = concretize(S, c, "switch");
        unsigned t = D.succ[0];
        for (auto& cs : W->cases())
            if (cs.getCaseValue()->getZExtValue() == v) { t = f.fi->bbNum.at(cs.getCaseSuccessor()); break; }
        gotoBB(S, t);
        return;
    }
    case Instruction::Unreachable: fail(S, "unreachable", "unreachable code reached");
    case Instruction::Resume:
    {
        Val a = opv(S, D, 0);
        const uint64_t o = (*a.agg)[0].c;
        popFrame(S);
        if (th(S).stack.empty()) terminate(S, "uncaught exception");
        unwind(S, o);
        return;
    }
    case Instruction::LandingPad:
        setReg(S, D, aggv({cv(th(S).lpObj, 64), cv(th(S).lpSel, 32)}));
        advance(S);
        return;
    case Instruction::Call: case Instruction::Invoke: doCall(S, D); return;
    case Instruction::Alloca:
    {
        auto* A = cast<AllocaInst>(I);
        uint64_t sz = DL_.getTypeAllocSize(A->getAllocatedType());
        if (A->isArrayAllocation()) sz *= concretize(S, opv(S, D, 0), "alloca");
        const uint64_t p = allocStack(S, sz, A->getAlign().value());
        fr(S).allocas.push_back(p);
        setReg(S, D, cv(p, 64));
        advance(S);
        return;
    }
    case Instruction::Load:
    {
        auto* L = cast<LoadInst>(I);
        Val r = load(S, opv(S, D, 0), L->getType(), L->getAlign().value());
        setReg(S, D, r);
        advance(S);
        return;
    }
    case Instruction::Store:
    {
        auto* T = cast<StoreInst>(I);
        Val   v;
        const int k = D.ops[0];
        v = k >= 0 ? fr(S).regs[k] : pool_[~k];
        if (!v.w && !v.agg)
        {
            // storing an undefined value: leave the destination uninitialised
            v = undefVal(T->getValueOperand()->getType(), &S);
        }
        store(S, opv(S, D, 1), T->getValueOperand()->getType(), v, T->getAlign().value());
        advance(S);
        return;
    }
    case Instruction::AtomicRMW:
    {
        auto* A = cast<AtomicRMWInst>(I);
        Val p = opv(S, D, 0), v = opv(S, D, 1);
        Val old = load(S, p, v.w == 64 && A->getType()->isPointerTy() ? A->getType() : A->getValOperand()->getType(), A->getAlign().value());
        Val nv;
        switch (A->getOperation())
        {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binv(Op::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = binv(Op::Sub, old, v); break;
        case AtomicRMWInst::And: nv = binv(Op::And, old, v); break;
        case AtomicRMWInst::Or: nv = binv(Op::Or, old, v); break;
        case AtomicRMWInst::Xor: nv = binv(Op::Xor, old, v); break;
        default: unsupported(S, "atomicrmw");
        }
        store(S, p, A->getValOperand()->getType(), nv, A->getAlign().value());
        setReg(S, D, old);
        advance(S);
        return;
    }
    case Instruction::AtomicCmpXchg:
    {
        auto* A = cast<AtomicCmpXchgInst>(I);
        Val p = opv(S, D, 0), c = opv(S, D, 1), v = opv(S, D, 2);
        Val old = load(S, p, A->getCompareOperand()->getType(), A->getAlign().value());
        Val eq = binv(Op::Eq, old, c);
        store(S, p, A->getNewValOperand()->getType(), ev(em_.ite(ex(eq), ex(v), ex(old))), A->getAlign().value());
        setReg(S, D, aggv({old, eq}));
        advance(S);
        return;
    }
    case Instruction::Fence: advance(S); return;
    case Instruction::GetElementPtr:
    {
        if (I->getType()->isVectorTy()) unsupported(S, "vector gep");
        Val r = binv(Op::Add, opv(S, D, 0), cv((uint64_t) D.gepConst, 64));
        for (auto& t : D.gepTerms)
        {
            Val x = opv(S, D, (unsigned) t.first);
            if (x.w < 64) x = x.e ? ev(em_.sext(x.e, 64)) : cv((uint64_t) csx::sextw(x.c, x.w), 64);
            r = binv(Op::Add, r, binv(Op::Mul, x, cv(t.second, 64)));
        }
        setReg(S, D, r);
        advance(S);
        return;
    }
    case Instruction::ICmp:
    {
        Val a = opv(S, D, 0), b = opv(S, D, 1), r;
        switch (cast<ICmpInst>(I)->getPredicate())
        {
        case CmpInst::ICMP_EQ: r = binv(Op::Eq, a, b); break;
        case CmpInst::ICMP_NE: r = binv(Op::Eq, binv(Op::Eq, a, b), cv(0, 1)); break;
        case CmpInst::ICMP_ULT: r = binv(Op::Ult, a, b); break;
        case CmpInst::ICMP_ULE: r = binv(Op::Ule, a, b); break;
        case CmpInst::ICMP_UGT: r = binv(Op::Ult, b, a); break;
        case CmpInst::ICMP_UGE: r = binv(Op::Ule, b, a); break;
        case CmpInst::ICMP_SLT: r = binv(Op::Slt, a, b); break;
        case CmpInst::ICMP_SLE: r = binv(Op::Sle, a, b); break;
        case CmpInst::ICMP_SGT: r = binv(Op::Slt, b, a); break;
        case CmpInst::ICMP_SGE: r = binv(Op::Sle, b, a); break;
        default: unsupported(S, "icmp");
        }
        setReg(S, D, r);
        advance(S);
        return;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    {
        if (I->getType()->isVectorTy()) unsupported(S, "vector arithmetic");
        Val a = opv(S, D, 0), b = opv(S, D, 1);
        if (a.w > 64) unsupported(S, "arithmetic wider than 64 bits");
        if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem)
            check(S, binv(Op::Eq, binv(Op::Eq, b, cv(0, b.w)), cv(0, 1)), "arithmetic", "division by zero");
        if (opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr)
            check(S, binv(Op::Ult, b, cv(a.w, b.w)), "arithmetic", "shift amount out of range");
        Op op;
        switch (opc)
        {
        case Instruction::Add: op = Op::Add; break;
        case Instruction::Sub: op = Op::Sub; break;
        case Instruction::Mul: op = Op::Mul; break;
        case Instruction::UDiv: op = Op::UDiv; break;
        case Instruction::SDiv: op = Op::SDiv; break;
        case Instruction::URem: op = Op::URem; break;
        case Instruction::SRem: op = Op::SRem; break;
        case Instruction::And: op = Op::And; break;
        case Instruction::Or: op = Op::Or; break;
        case Instruction::Xor: op = Op::Xor; break;
        case Instruction::Shl: op = Op::Shl; break;
        case Instruction::LShr: op = Op::LShr; break;
        default: op = Op::AShr; break;
        }
        setReg(S, D, binv(op, a, b));
        advance(S);
        return;
    }
    case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::BitCast:
    case Instruction::SExt: case Instruction::AddrSpaceCast: case Instruction::Freeze:
    {
        Val a = opv(S, D, 0);
        if (I->getType()->isVectorTy() || a.agg) { setReg(S, D, a); advance(S); return; }
        const unsigned w = bitsOf(I->getType());
        if (w > 64 || a.w > 64) unsupported(S, "cast wider than 64 bits");
        Val r;
        if (w == a.w) r = a;
        else if (w < a.w) r = a.e ? ev(em_.extract(a.e, 0, w)) : cv(a.c, w);
        else if (opc == Instruction::SExt) r = a.e ? ev(em_.sext(a.e, w)) : cv((uint64_t) csx::sextw(a.c, a.w), w);
        else r = a.e ? ev(em_.zext(a.e, w)) : cv(a.c, w);
        setReg(S, D, r);
        advance(S);
        return;
    }
    case Instruction::Select:
    {
        Val c = opv(S, D, 0), a = opv(S, D, 1), b = opv(S, D, 2);
        if (!c.e) setReg(S, D, c.c & 1 ? a : b);
        else if (a.agg || b.agg) unsupported(S, "select of aggregates");
        else setReg(S, D, ev(em_.ite(c.e, ex(a), ex(b))));
        advance(S);
        return;
    }
    case Instruction::ExtractValue:
    {
        Val v = opv(S, D, 0);
        Type* T = I->getOperand(0)->getType();
        for (unsigned k : cast<ExtractValueInst>(I)->indices())
        {
            T = GetElementPtrInst::getTypeAtIndex(T, (uint64_t) k);
            v = (*v.agg)[k];
        }
        if (!v.w && !v.agg) v = undefVal(T, &S);
        setReg(S, D, v);
        advance(S);
        return;
    }
    case Instruction::InsertValue:
    {
        auto* IV = cast<InsertValueInst>(I);
        Val agg = opv(S, D, 0), v = opv(S, D, 1);
        std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val {
            std::vector<Val> n = *a.agg;
            const unsigned   k = IV->getIndices()[d];
            n[k]               = d + 1 == IV->getNumIndices() ? v : ins(n[k], d + 1);
            return aggv(std::move(n));
        };
        setReg(S, D, ins(agg, 0));
        advance(S);
        return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FCmp:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
    case Instruction::FNeg:
    {
        // concrete floating point only
        auto tod = [&](const Val& v, Type* T) -> double {
            if (v.e) unsupported(S, "symbolic floating point");
            if (T->isFloatTy()) { float x; uint32_t b = (uint32_t) v.c; memcpy(&x, &b, 4); return x; }
            if (!T->isDoubleTy()) unsupported(S, "floating point type");
            double x; memcpy(&x, &v.c, 8); return x;
        };
        auto fromd = [&](double d, Type* T) -> Val {
            if (T->isFloatTy()) { float x = (float) d; uint32_t b; memcpy(&b, &x, 4); return cv(b, 32); }
            if (!T->isDoubleTy()) unsupported(S, "floating point type");
            uint64_t b; memcpy(&b, &d, 8); return cv(b, 64);
        };
        Type* T0 = I->getOperand(0)->getType();
        Val a = opv(S, D, 0), r;
        if (opc == Instruction::SIToFP || opc == Instruction::UIToFP)
        {
            const uint64_t k = concretize(S, a, "int to float");
            r = fromd(opc == Instruction::SIToFP ? (double) csx::sextw(k, a.w) : (double) k, I->getType());
        }
        else if (opc == Instruction::FPToSI || opc == Instruction::FPToUI) r = cv((uint64_t) (int64_t) tod(a, T0), bitsOf(I->getType()));
        else if (opc == Instruction::FPExt || opc == Instruction::FPTrunc) r = fromd(tod(a, T0), I->getType());
        else if (opc == Instruction::FNeg) r = fromd(-tod(a, T0), I->getType());
        else
        {
            const double x = tod(a, T0), y = tod(opv(S, D, 1), T0);
            if (opc == Instruction::FCmp)
            {
                const bool un = x != x || y != y;
                const auto p  = cast<FCmpInst>(I)->getPredicate();
                bool q = false;
                const bool eq = x == y, lt = x < y, gt = x > y;
                if ((p & 1) && eq) q = true;
                if ((p & 2) && gt) q = true;
                if ((p & 4) && lt) q = true;
                if ((p & 8) && un) q = true;
                r = cv(q, 1);
            }
            else
                r = fromd(opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : x / y, I->getType());
        }
        setReg(S, D, r);
        advance(S);
        return;
    }
    default: unsupported(S, std::string("instruction ") + I->getOpcodeName());
    }
}

// -------------------------------------------------------------------------------------------------------------- run

void Engine::pathDone(State& S, PathEnd::K k)
{
    if (k == PathEnd::Dropped) { ++dropped_; return; }
    ++paths_;
    switch (k)
    {
    case PathEnd::Ok: ++pathsOk_; break;
    case PathEnd::Infeasible: ++pathsInf_; return;
    case PathEnd::Error: ++pathsErr_; return;
    case PathEnd::Terminated: ++pathsTerm_; break;
    default: ++pathsLimit_; return;
    }
    // Reservoir-like deterministic sampling: keep paths 1,2,4,8,... and evenly spread ones.
    ++sampleSeen_;
    Sample s;
    auto take = [&]() {
        for (size_t i = 0; i < S.inputs.size(); ++i) s.in.emplace_back(S.inputNames[i], S.inputs[i] < S.model.size() ? S.model[S.inputs[i]] : 0);
        for (auto& l : S.log) s.log.push_back(l.e ? em_.eval(l.e, S.model) : l.c);
        s.term = k == PathEnd::Terminated;
    };
    for (auto& l : S.log)
        if (l.e && l.e->tainted) return;
    if (samples_.size() < o_.samples) { take(); samples_.push_back(s); }
    else if (o_.samples)
    {
        uint64_t h = sampleSeen_ * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
        const uint64_t r = h % sampleSeen_;
        if (r < o_.samples) { take(); samples_[r] = s; }
    }
}

int Engine::run()
{
    t0_ = std::chrono::steady_clock::now();
    auto S0 = std::make_unique<State>();
    S0->heapNext = 0x40000000ULL + 0x1000;
    S0->stkNext  = 0x700000000000ULL;
    layoutGlobals(*S0);
    S0->thr.resize(1);
    const Function* E = M_.getFunction(o_.entry);
    if (!E || E->isDeclaration()) { errs() << "entry not found: " << o_.entry << "\n"; return 3; }
    // Global constructors run before the entry point, in order.
    std::vector<const Function*> ctors;
    if (auto* G = M_.getNamedGlobal("llvm.global_ctors"))
        if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (unsigned i = 0; i < CA->getNumOperands(); ++i)
                if (auto* F = dyn_cast<Function>(CA->getOperand(i)->getOperand(1)->stripPointerCasts())) ctors.push_back(F);
    enter(*S0, E, {}, nullptr);
    for (size_t i = ctors.size(); i-- > 0;)
    {
        enter(*S0, ctors[i], {}, nullptr);
        fr(*S0).detached = true;
    }
    work_.push_back(std::move(S0));
    uint64_t tick = 0;
    while (!work_.empty())
    {
        StateP S = std::move(work_.back());
        work_.pop_back();
        try
        {
            for (;;)
            {
                step(*S);
                if (S->steps > o_.maxSteps) fail(*S, "hang", "execution does not terminate within the step limit");
                if ((++tick & 0xfff) == 0)
                {
                    const double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0_).count();
                    if (t > o_.maxTime) { timedOut_ = true; break; }
                    if ((tick & 0xfffff) == 0)
                    {
                        struct rusage ru;
                        getrusage(RUSAGE_SELF, &ru);
                        if ((uint64_t) ru.ru_maxrss / 1024 > o_.memMB) { memOut_ = true; break; }
                    }
                }
            }
        }
        catch (const PathEnd& p)
        {
            pathDone(*S, p.k);
        }
        if (timedOut_ || memOut_ || errCap_ || paths_ >= o_.maxPaths) break;
    }
    const double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0_).count();
    writeOut(secs);
    return 0;
}

void Engine::writeOut(double secs)
{
    json::Object R;
    const bool complete = work_.empty() && !timedOut_ && !memOut_ && pathsLimit_ == 0 && unknown_ == 0 && unsupported_.empty() && !errCap_;
    R["complete"]  = complete;
    R["timeout"]   = timedOut_;
    R["memout"]    = memOut_;
    R["pending"]   = (int64_t) work_.size();
    R["paths"]     = (int64_t) paths_;
    R["paths_ok"]  = (int64_t) pathsOk_;
    R["paths_infeasible"] = (int64_t) pathsInf_;
    R["paths_error"] = (int64_t) pathsErr_;
    R["paths_terminated"] = (int64_t) pathsTerm_;
    R["paths_limit"] = (int64_t) pathsLimit_;
    R["forks"]     = (int64_t) forks_;
    R["merges"]    = (int64_t) merges_;
    R["merge_fails"] = (int64_t) mergeFails_;
    R["steps"]     = (int64_t) steps_;
    R["asserts"]   = (int64_t) asserts_;
    R["asserts_symbolic"] = (int64_t) assertsSym_;
    R["assert_queries"] = (int64_t) assertQ_;
    R["mem_checks"] = (int64_t) memChecks_;
    R["queries"]   = (int64_t) sol_.stats.queries;
    R["cache_hits"] = (int64_t) sol_.stats.cacheHits;
    R["sat"]       = (int64_t) sol_.stats.sat;
    R["unsat"]     = (int64_t) sol_.stats.unsat;
    R["unknown"]   = (int64_t) (sol_.stats.unknown + unknown_);
    R["solver_s"]  = sol_.stats.seconds;
    R["wall_s"]    = secs;
    json::Array U;
    for (auto& u : unsupported_) U.push_back(u);
    R["unsupported"] = std::move(U);
    json::Object re;
    for (auto& p : reach_) re[p.first] = (int64_t) p.second;
    R["reach"] = std::move(re);
    json::Array es;
    for (auto& p : errors_)
    {
        json::Object o;
        o["kind"] = p.second.kind;
        o["msg"]  = p.second.msg;
        o["func"] = p.second.func;
        o["file"] = p.second.file;
        o["line"] = (int64_t) p.second.line;
        o["tainted"] = p.second.tainted;
        json::Array st;
        for (auto& s : p.second.stack) st.push_back(s);
        o["stack"] = std::move(st);
        json::Array in;
        for (auto& i : p.second.inputs) in.push_back(json::Array{i.first, std::to_string(i.second)});
        o["inputs"] = std::move(in);
        es.push_back(std::move(o));
    }
    R["errors"] = std::move(es);
    json::Array sa;
    for (auto& s : samples_)
    {
        json::Array in, lg;
        for (auto& i : s.in) in.push_back(json::Array{i.first, std::to_string(i.second)});
        for (auto l : s.log) lg.push_back(std::to_string(l));
        sa.push_back(json::Object{{"inputs", std::move(in)}, {"log", std::move(lg)}, {"term", s.term}});
    }
    R["samples"] = std::move(sa);
    // functions of the library that were executed, and lines covered
    json::Array fn;
    std::map<std::string, std::pair<std::set<unsigned>, std::set<unsigned>>> lines;
    std::set<std::string> names;
    for (auto& p : funcs_)
    {
        FuncInfo& f = *p.second;
        std::string file;
        if (auto* SP = f.F->getSubprogram()) file = SP->getFilename().str();
        const bool lib = file.find(o_.src) != std::string::npos;
        if (lib && f.entered) names.insert(demangle(f.F->getName().str()));
        for (auto& d : f.code)
            if (const DebugLoc& L = d.I->getDebugLoc())
            {
                const std::string fl = L->getFilename().str();
                if (L.getLine() == 0 || fl.find(o_.src) == std::string::npos) continue;
                lines[fl].first.insert(L.getLine());
                if (d.covered) lines[fl].second.insert(L.getLine());
            }
    }
    for (auto& n : names) fn.push_back(n);
    R["functions"] = std::move(fn);
    json::Object lc;
    for (auto& p : lines)
    {
        json::Array all, cov;
        for (auto l : p.second.first) all.push_back((int64_t) l);
        for (auto l : p.second.second) cov.push_back((int64_t) l);
        lc[p.first] = json::Object{{"seen", std::move(all)}, {"covered", std::move(cov)}};
    }
    R["lines"] = std::move(lc);
    std::error_code ec;
    raw_fd_ostream  os(o_.out.empty() ? "-" : o_.out, ec);
    os << json::Value(std::move(R)) << "\n";
}
}  // namespace

int main(int argc, char** argv)
{
    Options o;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") o.entry = nx();
        else if (a == "--out") o.out = nx();
        else if (a == "--src") o.src = nx();
        else if (a == "--max-time") o.maxTime = std::stod(nx());
        else if (a == "--max-steps") o.maxSteps = std::stoull(nx());
        else if (a == "--max-paths") o.maxPaths = std::stoull(nx());
        else if (a == "--max-errors") o.maxErrors = (unsigned) std::stoul(nx());
        else if (a == "--query-ms") o.queryMs = (unsigned) std::stoul(nx());
        else if (a == "--samples") o.samples = (unsigned) std::stoul(nx());
        else if (a == "--mem-mb") o.memMB = std::stoull(nx());
        else if (a == "--ite-max") o.iteMax = (unsigned) std::stoul(nx());
        else if (a == "--shard") { o.shard = (unsigned) std::stoul(nx()); o.shards = (unsigned) std::stoul(nx()); }
        else o.module = a;
    }
    LLVMContext  C;
    SMDiagnostic D;
    auto         M = parseIRFile(o.module, D, C);
    if (!M) { D.print("csx", errs()); return 3; }
    // A harness may define what lies in a shared library: "vxext_<symbol>" stands in for an undefined <symbol>.
    {
        std::vector<std::pair<Function*, Function*>> subst;
        for (Function& F : *M)
            if (F.isDeclaration())
                if (Function* S = M->getFunction("vxext_" + F.getName().str()))
                    if (!S->isDeclaration()) subst.push_back({&F, S});
        for (auto& p : subst) p.first->replaceAllUsesWith(p.second);
    }
    {
        // Promote locals to SSA form; nothing else is transformed.
        LoopAnalysisManager     LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager    CAM;
        ModuleAnalysisManager   MAM;
        PassBuilder             PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        FunctionPassManager FPM;
        FPM.addPass(PromotePass());
        ModulePassManager MPM;
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    Engine E(*M, o);
    return E.run();
}
