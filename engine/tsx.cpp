// tsx: a symbolic executor for LLVM IR produced by clang from C++ (with exceptions), deciding branch feasibility and
// assertions with an SMT solver.  See /verif/DESIGN.md.
#include "expr.h"
#include "solver.h"

#include <llvm/ADT/APFloat.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <chrono>
#include <csignal>
#include <fstream>
#include <functional>
#include <regex>
#include <sstream>

using namespace llvm;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double T0 = now();

// ---------------------------------------------------------------------------------------------------------------
// options
struct Options {
    std::string file, entry = "harness_main", out, model = "fp";
    double maxTime = 300;
    u64 maxSteps = 0; // per path
    int branchTimeout = 2000, checkTimeout = 20000;
    int maxViolations = 5;
    u64 maxPaths = 0;
    int maxDepth = 20000, maxTraces = 4;
    bool verbose = false, trace = false, prof = false;
    bool precise = false; // use exact IEEE arithmetic already for branch feasibility
    u64 seed = 1;
    std::map<std::string, i64> params;
} opt;

// ---------------------------------------------------------------------------------------------------------------
// memory
static const u64 OFFBITS = 24;
static const u64 BASE = 0x10000; // objects start at (id << 24) + BASE, so small negative offsets stay in the object

struct Cell { u32 off; u32 size; E e; };
enum Kind : u8 { K_HEAP, K_STACK, K_GLOBAL, K_CONST, K_FUNC, K_EXC };
struct Obj {
    int rc = 0;
    u32 size = 0;
    Kind kind = K_HEAP;
    u8 allocTag = 0; // 0 malloc-like, 1 new, 2 new[]
    bool allInit = false;
    std::vector<u8> bytes;
    std::vector<u8> init;
    std::vector<Cell> cells; // sorted by offset, non-overlapping
};
struct ObjP {
    Obj *p = nullptr;
    ObjP() {}
    explicit ObjP(Obj *q) : p(q) { if (p) p->rc++; }
    ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; }
    ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->rc == 0) delete p; }
};
struct Chunk {
    int rc = 0;
    ObjP o[64];
};
struct ChunkP {
    Chunk *p = nullptr;
    ChunkP() {}
    explicit ChunkP(Chunk *q) : p(q) { if (p) p->rc++; }
    ChunkP(const ChunkP &o) : p(o.p) { if (p) p->rc++; }
    ChunkP(ChunkP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ChunkP &operator=(ChunkP o) { std::swap(p, o.p); return *this; }
    ~ChunkP() { if (p && --p->rc == 0) delete p; }
};
static Obj *const FREED = (Obj *)8; // never stored in ObjP; freed objects are tracked by id < next && null

struct Mem {
    std::vector<ChunkP> ch;
    u32 next = 1;
    i64 liveHeap = 0;
    u64 liveBytes = 0;
    Obj *get(u32 id) const {
        if (id >= next) return nullptr;
        return ch[id >> 6].p ? ch[id >> 6].p->o[id & 63].p : nullptr;
    }
    Chunk *wchunk(u32 id) {
        ChunkP &c = ch[id >> 6];
        if (!c.p) c = ChunkP(new Chunk);
        else if (c.p->rc > 1) {
            Chunk *n = new Chunk;
            for (int i = 0; i < 64; i++) n->o[i] = c.p->o[i];
            c = ChunkP(n);
        }
        return c.p;
    }
    Obj *getW(u32 id) {
        Chunk *c = wchunk(id);
        ObjP &o = c->o[id & 63];
        if (o.p->rc > 1) {
            Obj *n = new Obj(*o.p);
            n->rc = 0;
            o = ObjP(n);
        }
        return o.p;
    }
    u32 alloc(u64 size, Kind k, bool init) {
        u32 id = next++;
        if ((id >> 6) >= ch.size()) ch.resize((id >> 6) + 1);
        Obj *o = new Obj;
        o->size = (u32)size;
        o->kind = k;
        o->bytes.assign(size, 0);
        o->allInit = init;
        if (!init) o->init.assign(size, 0);
        wchunk(id)->o[id & 63] = ObjP(o);
        if (k == K_HEAP) liveHeap++;
        return id;
    }
    void free(u32 id) {
        Obj *o = get(id);
        if (o && o->kind == K_HEAP) liveHeap--;
        wchunk(id)->o[id & 63] = ObjP();
    }
};
static inline u64 addrOf(u32 id) { return ((u64)id << OFFBITS) + BASE; }

// ---------------------------------------------------------------------------------------------------------------
// values
struct Val {
    u64 c = 0;
    E e = nullptr;
    Val() {}
    Val(u64 c) : c(c) {}
    Val(E e, int) : e(e) {}
};
static inline Val fromE(E e) {
    if (e->op == O_CONST) return Val(e->val);
    Val v; v.e = e; return v;
}
static inline E toE(const Val &v, int w) { return v.e ? v.e : mkC(w, v.c); }
static inline E toEF(const Val &v) { return v.e ? v.e : mkDB(v.c); }

// ---------------------------------------------------------------------------------------------------------------
// prepared code
struct Opnd { int slot = -1; u32 n = 1; const Val *cv = nullptr; };
struct PhiMove { int dst; u32 n; std::vector<std::pair<int, Opnd>> from; };
struct GepIdx { Opnd op; i64 scale; int w; };
struct Inst {
    unsigned opc = 0;
    const Instruction *I = nullptr;
    int dst = -1;
    u32 nres = 0;
    std::vector<Opnd> ops;
    int w = 0, w2 = 0; // result width / operand width
    bool isF = false;  // result (or stored/compared operand) is a double
    i64 imm = 0;
    int t0 = -1, t1 = -1; // successor blocks
    std::vector<GepIdx> gep;
    std::vector<std::pair<u64, int>> cases;
    const Function *callee = nullptr;
    std::vector<int> leafW, leafOff, leafF;
    u32 off = 0, cnt = 0; // extract/insertvalue
};
struct Block { std::vector<PhiMove> phis; std::vector<Inst> insts; };
struct Fn {
    const Function *F = nullptr;
    int nslots = 0;
    std::vector<int> argSlot;
    std::vector<u32> argN;
    std::vector<Block> bbs;
    std::string name;
    u64 calls = 0;
    bool inScope = false;
};

struct Frame {
    Fn *fn = nullptr;
    int bb = 0, pc = 0, prev = -1;
    std::vector<Val> r;
    std::vector<u32> allocas;
    std::vector<Val> varargs;
};
struct Exc {
    u64 obj = 0, tinfo = 0, dtor = 0;
    int handlers = 0;
    bool rethrown = false;
};
struct InputRec { std::string name; char kind; E e; };

struct State {
    std::vector<Frame> st;
    Mem mem;
    std::vector<E> pc;
    std::unordered_set<E> pcSet;
    std::unordered_map<E, u64> fixed; // expressions equated with a constant by the path condition
    std::set<u32> fixedSyms;
    std::shared_ptr<Model> model;
    // concrete inputs that are known to follow this path (floating-point mode); n: path conditions verified so far
    struct Wit { std::shared_ptr<const Model> m; u32 n; };
    std::vector<Wit> wits;
    std::vector<Exc> excs;       // by allocation
    std::vector<u64> caught;     // stack of caught exception objects
    u64 unwinding = 0;           // exception in flight (address)
    std::vector<InputRec> inputs;
    u64 steps = 0;
    int maxDepth = 0;
    size_t ctor = 0;
    bool started = false;
    std::map<std::pair<std::string, E>, std::vector<Val>> stub; // memo of environment stubs
    std::string note;
};

// ---------------------------------------------------------------------------------------------------------------
struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; bool uf = false; };

struct PathEnd {};            // path finished (normally or by assumption)
struct Bug { std::string kind, msg; };

class Engine {
public:
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    Solver sol;
    DenseMap<const Value *, u64> gaddr;
    std::unordered_map<u32, const Function *> fnById;
    std::unordered_map<u32, const GlobalVariable *> gvById;
    std::unordered_map<const Function *, std::unique_ptr<Fn>> fns;
    std::deque<std::vector<Val>> constPool;
    std::vector<State> work;
    State init;
    std::vector<const Function *> ctors;
    // results
    std::map<std::string, u64> outside;
    u64 paths = 0, pathsAssumed = 0, pathsBug = 0, steps = 0, forks = 0, checks = 0, checksTrivial = 0, checksUnknown = 0, branchUnknown = 0;
    u64 unexplored = 0;
    bool incomplete = false;
    std::string incompleteWhy;
    std::map<std::string, u64> covers;
    std::map<std::string, u64> checkHits;
    std::vector<Violation> viols;
    std::set<std::string> violKeys;
    std::set<std::string> unsupported;
    std::vector<std::string> samples;
    
    std::map<std::string, u64> stubsUsed;

    State *S = nullptr; // current state
    const State *snap = nullptr;

    // ---- setup --------------------------------------------------------------------------------------------
    static int leafCount(Type *t) {
        if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : s->elements()) n += leafCount(e); return n; }
        if (auto *a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * leafCount(a->getElementType());
        if (t->isVoidTy()) return 0;
        return 1;
    }
    int widthOf(Type *t) const {
        if (t->isIntegerTy()) return (int)t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isX86_FP80Ty()) return 80;
        return 0;
    }
    void leaves(Type *t, u64 off, std::vector<int> &w, std::vector<int> &o, std::vector<int> &f) {
        if (auto *s = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), w, o, f);
        } else if (auto *a = dyn_cast<ArrayType>(t)) {
            u64 sz = DL->getTypeAllocSize(a->getElementType());
            for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * sz, w, o, f);
        } else { w.push_back(widthOf(t)); o.push_back((int)off); f.push_back(t->isDoubleTy()); }
    }
    u64 constAddr(const Constant *c) {
        auto it = gaddr.find(c);
        if (it != gaddr.end()) return it->second;
        if (auto *a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
        return 0;
    }
    void constVals(const Constant *c, std::vector<Val> &out) {
        Type *t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            int n = leafCount(t);
            for (int i = 0; i < n; i++) out.push_back(Val((u64)0));
            return;
        }
        if (t->isStructTy() || t->isArrayTy()) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
            return;
        }
        out.push_back(Val(constScalar(c)));
    }
    u64 constScalar(const Constant *c) {
        if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().trunc(64).getZExtValue();
        if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u, f->getValueAPF().bitcastToAPInt().getBitWidth()), 0);
        if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
        if (isa<GlobalValue>(c)) return constAddr(c);
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                u64 base = constScalar(ce->getOperand(0));
                APInt off(64, 0);
                cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
                return base + off.getZExtValue();
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                return constScalar(ce->getOperand(0));
            case Instruction::Sub: return constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1));
            case Instruction::Add: return constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1));
            case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
            case Instruction::ICmp: {
                u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
                return ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b;
            }
            default: break;
            }
        }
        std::string s;
        raw_string_ostream os(s);
        c->print(os);
        fprintf(stderr, "unsupported constant %s\n", os.str().c_str());
        exit(3);
    }
    void initMem(Obj *o, u64 off, const Constant *c) {
        Type *t = c->getType();
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            StringRef raw = cd->getRawDataValues();
            memcpy(&o->bytes[off], raw.data(), raw.size());
            return;
        }
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
            return;
        }
        if (auto *at = dyn_cast<ArrayType>(t)) {
            u64 sz = DL->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); i++) initMem(o, off + i * sz, c->getAggregateElement((unsigned)i));
            return;
        }
        u64 v = constScalar(c);
        u64 sz = DL->getTypeStoreSize(t);
        memcpy(&o->bytes[off], &v, std::min<u64>(sz, 8));
    }
    void load() {
        SMDiagnostic err;
        M = parseIRFile(opt.file, err, ctx);
        if (!M) { err.print("tsx", errs()); exit(3); }
        DL = &M->getDataLayout();
        for (auto &F : *M) {
            u32 id = init.mem.alloc(1, K_FUNC, true);
            gaddr[&F] = addrOf(id);
            fnById[id] = &F;
        }
        for (auto &G : M->globals()) {
            if (G.getName().starts_with("llvm.")) continue;
            u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
            if (!G.hasInitializer()) sz = std::max<u64>(sz, 64);
            u32 id = init.mem.alloc(sz, G.isConstant() ? K_CONST : K_GLOBAL, true);
            gaddr[&G] = addrOf(id);
            gvById[id] = &G;
        }
        for (auto &G : M->globals()) {
            if (!G.hasInitializer() || G.getName().starts_with("llvm.")) continue;
            initMem(init.mem.getW((u32)(gaddr[&G] >> OFFBITS)), 0, G.getInitializer());
        }
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
            std::vector<std::pair<u64, const Function *>> v;
            if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto &op : arr->operands()) {
                    auto *cs = cast<ConstantStruct>(op);
                    if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                        v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
                }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &p : v) ctors.push_back(p.second);
        }
    }
    Fn *prep(const Function *F) {
        auto &p = fns[F];
        if (p) return p.get();
        p.reset(new Fn);
        Fn *f = p.get();
        f->F = F;
        f->name = F->getName().str();
        if (auto *sp = F->getSubprogram()) {
            std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str();
            f->inScope = fn.find("tomsolver/") != std::string::npos && fn.find("/verif/") == std::string::npos;
        }
        DenseMap<const Value *, std::pair<int, int>> slot;
        int n = 0;
        for (auto &A : F->args()) {
            int k = leafCount(A.getType());
            slot[&A] = {n, k};
            f->argSlot.push_back(n);
            f->argN.push_back(k);
            n += k;
        }
        DenseMap<const BasicBlock *, int> bbi;
        int nb = 0;
        for (auto &B : *F) bbi[&B] = nb++;
        for (auto &B : *F)
            for (auto &I : B) {
                int k = leafCount(I.getType());
                if (k) { slot[&I] = {n, k}; n += k; }
            }
        f->nslots = n;
        auto opnd = [&](const Value *v) {
            Opnd o;
            auto it = slot.find(v);
            if (it != slot.end()) { o.slot = it->second.first; o.n = it->second.second; return o; }
            if (auto *c = dyn_cast<Constant>(v)) {
                constPool.emplace_back();
                constVals(c, constPool.back());
                o.cv = constPool.back().data();
                o.n = (u32)constPool.back().size();
                return o;
            }
            o.n = 0; // metadata, inline asm, labels
            return o;
        };
        f->bbs.resize(nb);
        for (auto &B : *F) {
            Block &blk = f->bbs[bbi[&B]];
            for (auto &I : B) {
                if (auto *ph = dyn_cast<PHINode>(&I)) {
                    PhiMove m;
                    m.dst = slot[&I].first;
                    m.n = slot[&I].second;
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
                        m.from.push_back({bbi[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
                    blk.phis.push_back(m);
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                Inst in;
                in.I = &I;
                in.opc = I.getOpcode();
                auto sit = slot.find(&I);
                if (sit != slot.end()) { in.dst = sit->second.first; in.nres = sit->second.second; }
                in.w = widthOf(I.getType());
                in.isF = I.getType()->isDoubleTy();
                switch (in.opc) {
                case Instruction::Br: {
                    auto *b = cast<BranchInst>(&I);
                    in.t0 = bbi[b->getSuccessor(0)];
                    if (b->isConditional()) { in.t1 = bbi[b->getSuccessor(1)]; in.ops.push_back(opnd(b->getCondition())); }
                    break;
                }
                case Instruction::Switch: {
                    auto *sw = cast<SwitchInst>(&I);
                    in.ops.push_back(opnd(sw->getCondition()));
                    in.w = widthOf(sw->getCondition()->getType());
                    in.t0 = bbi[sw->getDefaultDest()];
                    for (auto &cs : sw->cases()) in.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]});
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto *g = cast<GetElementPtrInst>(&I);
                    in.ops.push_back(opnd(g->getPointerOperand()));
                    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        const Value *idx = gi.getOperand();
                        if (StructType *st = gi.getStructTypeOrNull()) {
                            in.imm += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            i64 sc = (i64)DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto *ci = dyn_cast<ConstantInt>(idx)) in.imm += ci->getSExtValue() * sc;
                            else in.gep.push_back({opnd(idx), sc, widthOf(idx->getType())});
                        }
                    }
                    break;
                }
                case Instruction::ExtractValue: {
                    auto *ev = cast<ExtractValueInst>(&I);
                    in.ops.push_back(opnd(ev->getAggregateOperand()));
                    in.off = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
                    in.cnt = leafCount(I.getType());
                    break;
                }
                case Instruction::InsertValue: {
                    auto *iv = cast<InsertValueInst>(&I);
                    in.ops.push_back(opnd(iv->getAggregateOperand()));
                    in.ops.push_back(opnd(iv->getInsertedValueOperand()));
                    in.off = leafIndex(iv->getAggregateOperand()->getType(), iv->getIndices());
                    in.cnt = leafCount(iv->getInsertedValueOperand()->getType());
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto *cb = cast<CallBase>(&I);
                    for (auto &a : cb->args()) in.ops.push_back(opnd(a.get()));
                    in.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!in.callee)
                        if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) in.callee = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
                    if (!in.callee) in.ops.push_back(opnd(cb->getCalledOperand()));
                    if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.t0 = bbi[iv->getNormalDest()]; in.t1 = bbi[iv->getUnwindDest()]; }
                    break;
                }
                case Instruction::Load: {
                    in.ops.push_back(opnd(I.getOperand(0)));
                    leaves(I.getType(), 0, in.leafW, in.leafOff, in.leafF);
                    break;
                }
                case Instruction::Store: {
                    in.ops.push_back(opnd(I.getOperand(0)));
                    in.ops.push_back(opnd(I.getOperand(1)));
                    leaves(I.getOperand(0)->getType(), 0, in.leafW, in.leafOff, in.leafF);
                    break;
                }
                case Instruction::Alloca: {
                    auto *al = cast<AllocaInst>(&I);
                    in.ops.push_back(opnd(al->getArraySize()));
                    in.imm = (i64)DL->getTypeAllocSize(al->getAllocatedType());
                    break;
                }
                default:
                    for (auto &o : I.operands()) in.ops.push_back(opnd(o.get()));
                    if (I.getNumOperands()) {
                        in.w2 = widthOf(I.getOperand(0)->getType());
                        if (isa<FCmpInst>(&I) || isa<FPToSIInst>(&I) || isa<FPToUIInst>(&I)) in.isF = I.getOperand(0)->getType()->isDoubleTy();
                    }
                }
                blk.insts.push_back(std::move(in));
            }
        }
        return f;
    }
    u32 leafIndex(Type *t, ArrayRef<unsigned> idx) {
        u32 r = 0;
        for (unsigned i : idx) {
            if (auto *s = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) r += leafCount(s->getElementType(k));
                t = s->getElementType(i);
            } else {
                auto *a = cast<ArrayType>(t);
                r += i * leafCount(a->getElementType());
                t = a->getElementType();
            }
        }
        return r;
    }

    // ---- constraints ---------------------------------------------------------------------------------------
    std::unordered_map<E, E> simpMemo;
    E simp(E e) { // replace subterms the path condition equates with constants
        if (S->fixed.empty()) return e;
        simpMemo.clear();
        return simpR(e);
    }
    E simpR(E e) {
        if (e->op == O_CONST) return e;
        auto f = S->fixed.find(e);
        if (f != S->fixed.end()) return e->isF ? mkDB(f->second) : mkC(e->w, f->second);
        if (e->op == O_SYM) return e;
        const auto &sy = symsOf(e);
        bool any = false;
        for (u32 s : sy) if (S->fixedSyms.count(s)) { any = true; break; }
        if (!any) return e;
        auto it = simpMemo.find(e);
        if (it != simpMemo.end()) return it->second;
        E a = e->a[0] ? simpR(e->a[0]) : nullptr, b = e->a[1] ? simpR(e->a[1]) : nullptr, c = e->a[2] ? simpR(e->a[2]) : nullptr;
        E r = e;
        if (a != e->a[0] || b != e->a[1] || c != e->a[2]) r = rebuild(e, a, b, c);
        simpMemo[e] = r;
        return r;
    }
    E rebuild(E e, E a, E b, E c) {
        switch (e->op) {
        case O_CONCAT: return mkConcat(a, b);
        case O_EXTRACT: return mkExtract(a, (int)e->val, e->w);
        case O_ZEXT: return mkZext(a, e->w);
        case O_SEXT: return mkSext(a, e->w);
        case O_ITE: case O_FITE: return mkIte(a, b, c);
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return mkF2(e->op, a, b);
        case O_FNEG: return mkFNeg(a);
        case O_FABS: return mkFAbs(a);
        case O_FLT: case O_FLE: case O_FEQ: return mkFCmp(e->op, a, b);
        case O_FISNAN: return mkFIsNan(a);
        case O_FSAME: return mkFSame(a, b);
        case O_FTOBITS: return mkToBits(a);
        case O_FFROMBITS: return mkFromBits(a);
        case O_SITOFP: return mkSIToFP(a);
        case O_UITOFP: return mkUIToFP(a);
        case O_FPTOSI: case O_FPTOUI: return mkFPToI(a, e->w, e->op == O_FPTOSI);
        case O_UF: return mkUF((int)e->val, a, b);
        case O_UP: return mkUP((int)e->val, a);
        default: return mkBin(e->op, a, b);
        }
    }
    void addPC(State &s, E c) {
        if (isTrue(c)) return;
        if (c->op == O_AND && c->w == 1) { addPC(s, c->a[0]); addPC(s, c->a[1]); return; }
        // not (a or b)
        if (c->op == O_XOR && c->w == 1 && isTrue(c->a[1]) && c->a[0]->op == O_OR) {
            addPC(s, mkNot(c->a[0]->a[0])); addPC(s, mkNot(c->a[0]->a[1])); return;
        }
        if (!s.pcSet.insert(c).second) return;
        s.pc.push_back(c);
        E k = nullptr; u64 v = 0;
        if (c->op == O_EQ && isC(c->a[1])) { k = c->a[0]; v = c->a[1]->val; }
        else if (c->op == O_SYM || c->op == O_ULT || c->op == O_SLT || c->op == O_FLT || c->op == O_FLE || c->op == O_FEQ || c->op == O_UP || c->op == O_FISNAN) { k = c; v = 1; }
        else if (c->op == O_XOR && isTrue(c->a[1])) { k = c->a[0]; v = 0; }
        if (k) {
            s.fixed[k] = v;
            for (u32 x : symsOf(k)) s.fixedSyms.insert(x);
        }
        if (REALMODE && c->op == O_FEQ) { // a double known to be a constant
            for (int i = 0; i < 2; i++)
                if (isC(c->a[i]) && (c->a[1 - i]->op == O_SYM || c->a[1 - i]->op == O_UF)) {
                    s.fixed[c->a[1 - i]] = c->a[i]->val;
                    for (u32 x : symsOf(c->a[1 - i])) s.fixedSyms.insert(x);
                }
        }
    }
    std::vector<E> slice(const State &s, E c) {
        // constraints sharing symbols (transitively) with c
        std::vector<E> out{c};
        std::vector<char> used(s.pc.size(), 0);
        std::set<u32> syms(symsOf(c).begin(), symsOf(c).end());
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < s.pc.size(); i++) {
                if (used[i]) continue;
                bool hit = false;
                for (u32 x : symsOf(s.pc[i])) if (syms.count(x)) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1;
                out.push_back(s.pc[i]);
                for (u32 x : symsOf(s.pc[i])) if (syms.insert(x).second) ch = true;
            }
        }
        return out;
    }
    // evaluate under a model; returns false when not evaluable
    std::unordered_map<E, std::pair<bool, u64>> evMemo;
    static double libm(const std::string &n, double x, double y) { return libmImpl(n, x, y); }
    static bool libmKnown(const std::string &n) {
        static const std::set<std::string> k = {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10", "sqrt", "pow", "fabs", "floor", "ceil", "trunc",
                                                "round", "fmod", "atan2", "sinh", "cosh", "tanh", "hypot", "cbrt", "exp2", "expm1", "log1p", "nearbyint", "rint",
                                                "copysign", "fmax", "fmin"};
        return k.count(n) > 0;
    }
    bool evalM(E e, const Model &m, u64 &out) {
        if (e->op == O_CONST) { out = e->val; return true; }
        if (e->op == O_SYM) { out = m.get((u32)e->val); return true; }
        if (e->isF && REALMODE) return false;
        auto it = evMemo.find(e);
        if (it != evMemo.end()) { out = it->second.second; return it->second.first; }
        bool ok = false;
        u64 r = 0, x = 0, y = 0;
        auto un = [&] { return evalM(e->a[0], m, x); };
        auto two = [&] { return evalM(e->a[0], m, x) && evalM(e->a[1], m, y); };
        switch (e->op) {
        case O_ITE: case O_FITE:
            ok = evalM(e->a[0], m, x) && evalM(x ? e->a[1] : e->a[2], m, r);
            break;
        case O_ZEXT: ok = evalM(e->a[0], m, r); break;
        case O_SEXT: ok = evalM(e->a[0], m, x); r = (u64)sx(x, e->a[0]->w) & maskw(e->w); break;
        case O_EXTRACT: ok = evalM(e->a[0], m, x); r = (x >> e->val) & maskw(e->w); break;
        case O_CONCAT: ok = evalM(e->a[0], m, x) && evalM(e->a[1], m, y); r = x << e->a[1]->w | y; break;
        case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR:
        case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: case O_EQ: case O_ULT: case O_SLT: case O_ULE: case O_SLE: {
            if (e->a[0]->isF) break;
            ok = two();
            int w = e->a[0]->w;
            i64 sa = sx(x, w), sb = sx(y, w);
            switch (e->op) {
            case O_ADD: r = x + y; break;
            case O_SUB: r = x - y; break;
            case O_MUL: r = x * y; break;
            case O_AND: r = x & y; break;
            case O_OR: r = x | y; break;
            case O_XOR: r = x ^ y; break;
            case O_EQ: r = x == y; break;
            case O_ULT: r = x < y; break;
            case O_ULE: r = x <= y; break;
            case O_SLT: r = sa < sb; break;
            case O_SLE: r = sa <= sb; break;
            default: {
                if (!ok) break;
                E c = mkBin(e->op, mkC(w, x), mkC(w, y));
                if (isC(c)) r = c->val; else ok = false;
            }
            }
            r &= maskw(e->w);
            break;
        }
        case O_FADD: ok = two(); r = asB(asD(x) + asD(y)); break;
        case O_FSUB: ok = two(); r = asB(asD(x) - asD(y)); break;
        case O_FMUL: ok = two(); r = asB(asD(x) * asD(y)); break;
        case O_FDIV: ok = two(); r = asB(asD(x) / asD(y)); break;
        case O_FNEG: ok = un(); r = x ^ (1ull << 63); break;
        case O_FABS: ok = un(); r = x & ~(1ull << 63); break;
        case O_FLT: ok = two() && !REALMODE; r = asD(x) < asD(y); break;
        case O_FLE: ok = two() && !REALMODE; r = asD(x) <= asD(y); break;
        case O_FEQ: ok = two() && !REALMODE; r = asD(x) == asD(y); break;
        case O_FISNAN: ok = un() && !REALMODE; r = asD(x) != asD(x); break;
        case O_FSAME:
            ok = two() && !REALMODE;
            r = x == y || (asD(x) != asD(x) && asD(y) != asD(y));
            break;
        case O_SITOFP: ok = un(); r = asB((double)sx(x, e->a[0]->w)); break;
        case O_UITOFP: ok = un(); r = asB((double)x); break;
        case O_FFROMBITS: ok = un(); r = x; break;
        case O_FTOBITS: ok = un() && asD(x) == asD(x); r = x; break;
        case O_FPTOSI: case O_FPTOUI: {
            ok = un() && !REALMODE;
            double d = std::trunc(asD(x)), lim = std::ldexp(1.0, e->op == O_FPTOSI ? e->w - 1 : e->w);
            if (!(d < lim && d >= (e->op == O_FPTOSI ? -lim : 0))) ok = false;
            else r = (e->op == O_FPTOSI ? (u64)(i64)d : (u64)d) & maskw(e->w);
            break;
        }
        case O_UF:
            if (!libmKnown(ufNames[e->val])) break;
            ok = un() && (!e->a[1] || evalM(e->a[1], m, y));
            if (ok) r = asB(libm(ufNames[e->val], asD(x), asD(y)));
            break;
        default: break;
        }
        evMemo[e] = {ok, r};
        out = r;
        return ok;
    }
    // does the assignment satisfy all of these?
    bool satisfies(const Model &m, const std::vector<E> &cs, size_t from = 0) {
        evMemo.clear();
        u64 v = 0;
        for (size_t i = from; i < cs.size(); i++)
            if (!evalM(cs[i], m, v) || !v) return false;
        return true;
    }
    void refreshWits(State &s) {
        size_t k = 0;
        for (auto &w : s.wits) {
            if (w.n < s.pc.size() && !satisfies(*w.m, s.pc, w.n)) continue;
            s.wits[k++] = {w.m, (u32)s.pc.size()};
        }
        s.wits.resize(k);
    }
    void addWit(State &s, std::shared_ptr<const Model> m) {
        if (s.wits.size() < 8) s.wits.push_back({m, (u32)s.pc.size()});
    }
    u64 witHits = 0, searchHits = 0;
    // A concrete input on this path that also satisfies c: changes one number of a known witness (the slice of
    // constraints that share symbols with c is all that has to be re-evaluated).
    std::shared_ptr<const Model> searchWit(State &s, E c, const std::vector<E> &slice) {
        static const double sp[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 0.25, 10, -3, 1.5, -1.5, 100, -100, 1e-3, 1e-7, -1e-7, 1e-17, 1e10, -1e10, 2147483647.0,
                                    -2147483648.0, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-324, -0.0, 1e-300, 4, 7, 12, -7, -12, 5, 0.1, 0.9,
                                    0.7071, 1.5707963267948966};
        const std::vector<u32> &sy = symsOf(c);
        int wn = 0;
        for (auto &w : s.wits) {
            if (wn++ >= 2) break;
            int k = 0;
            for (u32 x : sy) {
                if ((x & 0x80000000u) || !symTab[x].isF || k++ >= 3) continue;
                Model m = *w.m;
                for (double d : sp) {
                    m.v[x] = asB(d);
                    if (satisfies(m, slice)) { searchHits++; return std::make_shared<Model>(m); }
                }
                m.v[x] = asB(INFINITY);
                if (satisfies(m, slice)) { searchHits++; return std::make_shared<Model>(m); }
                m.v[x] = asB(-INFINITY);
                if (satisfies(m, slice)) { searchHits++; return std::make_shared<Model>(m); }
                m.v[x] = asB(NAN);
                if (satisfies(m, slice)) { searchHits++; return std::make_shared<Model>(m); }
            }
        }
        return nullptr;
    }
    std::shared_ptr<const Model> lastWit;
    static bool hasF(E e, std::unordered_map<E, bool> &memo) {
        if (e->isF) return true;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        bool r = e->op == O_UP;
        for (E c : e->a) if (c && hasF(c, memo)) { r = true; break; }
        return memo[e] = r;
    }
    std::unordered_map<E, bool> hasFMemo;
    struct QRes { std::vector<u32> ids; Res r; std::shared_ptr<Model> m; };
    std::unordered_map<u64, std::vector<QRes>> qcache;
    // Decide a conjunction; results are kept (symbols are shared between paths, so the same slices come back often).
    Res query(const std::vector<E> &cs, Model *m, int timeout, bool precise) {
        std::vector<u32> ids;
        for (E e : cs) ids.push_back(e->id);
        std::sort(ids.begin(), ids.end());
        u64 h = precise ? 77 : 5;
        for (u32 i : ids) h = (h ^ i) * 1099511628211ull + 13;
        auto &bucket = qcache[h];
        for (auto &p : bucket)
            if (p.ids == ids && (!m || p.r != SAT || p.m)) {
                sol.st.cacheHits++;
                if (m && p.m) *m = *p.m;
                return p.r;
            }
        Res r = sol.check(cs, m, timeout, precise);
        if (r != UNKNOWN) qcache[h].push_back({ids, r, m && r == SAT ? std::make_shared<Model>(*m) : nullptr});
        return r;
    }
    // Is c possible on this path?
    Res feasible(State &s, E c) {
        if (isTrue(c)) return SAT;
        if (isFalse(c)) return UNSAT;
        if (s.pcSet.count(c)) return SAT;
        if (s.pcSet.count(mkNot(c))) return UNSAT;
        bool fl = hasF(c, hasFMemo);
        if (!fl && s.model) {
            evMemo.clear();
            u64 v;
            if (evalM(c, *s.model, v) && v) {
                sol.st.modelHits++;
                if (!REALMODE && !s.wits.empty()) { // carry a witness over to the model's side
                    std::vector<E> cs = slice(s, c);
                    std::set<u32> sy;
                    for (E e : cs) for (u32 x : symsOf(e)) if (!(x & 0x80000000u) && !symTab[x].isF) sy.insert(x);
                    for (auto &w : s.wits) {
                        Model n = *w.m;
                        for (u32 x : sy) n.v[x] = s.model->get(x);
                        if (satisfies(n, cs)) { lastWit = std::make_shared<Model>(n); break; }
                    }
                }
                return SAT;
            }
        }
        std::vector<E> cs = slice(s, c);
        Model m;
        bool pureBV = true;
        for (E e : cs) if (hasF(e, hasFMemo)) { pureBV = false; break; }
        if (!REALMODE) refreshWits(s);
        if (!REALMODE && !pureBV) {
            auto w = searchWit(s, c, cs);
            if (w) { lastWit = w; return SAT; }
        }
        if (!REALMODE && !pureBV) { // constraints over the same symbols often suffice, and that query recurs on many paths
            std::vector<E> sub{c};
            const std::vector<u32> &sc = symsOf(c);
            for (size_t i = 1; i < cs.size(); i++) {
                const std::vector<u32> &se = symsOf(cs[i]);
                if (std::includes(sc.begin(), sc.end(), se.begin(), se.end())) sub.push_back(cs[i]);
            }
            if (sub.size() < cs.size() && query(sub, nullptr, opt.branchTimeout, opt.precise) == UNSAT) return UNSAT;
        }
        Res r = query(cs, pureBV || !REALMODE ? &m : nullptr, opt.branchTimeout, opt.precise);
        if (r == SAT && pureBV) {
            auto nm = std::make_shared<Model>(s.model ? *s.model : Model());
            for (auto &p : m.v) nm->v[p.first] = p.second;
            lastModel = nm;
        }
        if (r == SAT && !REALMODE)
            for (auto &w : s.wits) {
                Model n = *w.m;
                for (auto &p : m.v) n.v[p.first] = p.second;
                if (satisfies(n, cs)) { lastWit = std::make_shared<Model>(n); break; }
            }
        if (r == UNKNOWN) branchUnknown++;
        return r;
    }
    std::shared_ptr<Model> lastModel;

    // Decide a condition for the current instruction. May fork: the other side re-executes this instruction.
    bool decide(E c0) {
        E c = simp(c0);
        if (isC(c)) return c->val;
        if (S->pcSet.count(c)) return true;
        E nc = mkNot(c);
        if (S->pcSet.count(nc)) return false;
        if (usesUndef(c)) throw Bug{"uninit", "branch on an uninitialised value: " + exprStr(c, 4)};
        std::vector<State::Wit> wT, wF;
        if (!REALMODE) {
            refreshWits(*S);
            for (auto &w : S->wits) {
                evMemo.clear();
                u64 v;
                if (evalM(c, *w.m, v)) (v ? wT : wF).push_back(w);
            }
        }
        lastModel.reset();
        lastWit.reset();
        bool know = !wT.empty() && (hasF(c, hasFMemo) || !S->model);
        if (know) witHits++;
        Res rt = know ? SAT : feasible(*S, c);
        auto mt = lastModel;
        if (lastWit) wT.push_back({lastWit, (u32)S->pc.size()});
        lastModel.reset();
        lastWit.reset();
        if (rt == UNSAT) { addPC(*S, nc); return false; }
        know = !wF.empty() && (hasF(c, hasFMemo) || !S->model);
        if (know) witHits++;
        Res rf = know ? SAT : feasible(*S, nc);
        auto mf = lastModel;
        if (lastWit) wF.push_back({lastWit, (u32)S->pc.size()});
        if (rf == UNSAT) { addPC(*S, c); if (mt) S->model = mt; return true; }
        // both
        forks++;
        State o = *S; // nothing has been changed by this instruction yet
        addPC(o, nc);
        o.wits = wF;
        if (mf) o.model = mf;
        // keep the model for whichever side it satisfies
        if (rt == SAT && mt) S->model = mt;
        work.push_back(std::move(o));
        addPC(*S, c);
        S->wits = wT;
        return true;
    }
    std::vector<u32> undefSyms;
    bool usesUndef(E c) {
        if (undefSyms.empty()) return false;
        for (u32 x : symsOf(c)) if (!(x & 0x80000000u) && symTab[x].undef) return true;
        return false;
    }
    // pick a concrete value, forking over all possible ones (bounded)
    u64 concretize(const Val &v, int w, const char *what) {
        if (!v.e) return v.c;
        E e = simp(v.e);
        if (isC(e)) return e->val;
        if (usesUndef(e)) throw Bug{"uninit", std::string("uninitialised value used as ") + what};
        if (hasF(e, hasFMemo)) {
            e = settle(e);
            if (isC(e)) return e->val;
        }
        for (int tries = 0; tries < 4096; tries++) {
            std::vector<E> cs = sliceOf(*S, e); // the constraints that touch e
            Model m;
            Res r = query(cs, &m, opt.branchTimeout, opt.precise);
            if (r == UNSAT) throw PathEnd();
            if (r == UNKNOWN) unsupportedHere(std::string("cannot concretize ") + what);
            evMemo.clear();
            u64 val = 0;
            if (!evalM(e, m, val)) unsupportedHere(std::string("cannot evaluate ") + what);
            E c = mkEq(e, mkC(e->w, val));
            if (decide(c)) return val;
        }
        unsupportedHere(std::string("too many values for ") + what);
        return 0;
    }
    // decide the truth values over floating-point terms that e depends on
    E settle(E e) {
        if (isC(e) || !hasF(e, hasFMemo) || e->isF) return e;
        if (e->w == 1) return mkB(decide(e));
        if (e->op == O_ITE) return settle(decide(e->a[0]) ? e->a[1] : e->a[2]);
        E a = e->a[0] ? settle(e->a[0]) : nullptr, b = e->a[1] ? settle(e->a[1]) : nullptr, c = e->a[2] ? settle(e->a[2]) : nullptr;
        if (a == e->a[0] && b == e->a[1] && c == e->a[2]) return e;
        return rebuild(e, a, b, c);
    }
    std::vector<E> sliceOf(const State &s, E e) {
        std::vector<E> out;
        std::vector<char> used(s.pc.size(), 0);
        std::set<u32> syms(symsOf(e).begin(), symsOf(e).end());
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < s.pc.size(); i++) {
                if (used[i]) continue;
                bool hit = false;
                for (u32 x : symsOf(s.pc[i])) if (syms.count(x)) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1;
                out.push_back(s.pc[i]);
                for (u32 x : symsOf(s.pc[i])) if (syms.insert(x).second) ch = true;
            }
        }
        // make sure every symbol of e is in the model
        for (u32 x : symsOf(e))
            if (!(x & 0x80000000u)) {
                E se = mkRaw(O_SYM, symTab[x].isF, symTab[x].w, 0, 0, 0, x);
                if (!se->isF) out.push_back(mkRaw(O_EQ, false, 1, se, se));
            }
        return out;
    }
    [[noreturn]] void unsupportedHere(const std::string &what) {
        std::string k = what + " at " + where();
        if (unsupported.insert(k).second) fprintf(stderr, "tsx: unsupported: %s\n", k.c_str());
        incomplete = true;
        if (incompleteWhy.empty()) incompleteWhy = "unsupported: " + k;
        throw PathEnd();
    }
    std::string where() {
        std::string s;
        int n = 0;
        for (int i = (int)S->st.size() - 1; i >= 0 && n < 8; i--, n++) {
            Frame &f = S->st[i];
            std::string nm = f.fn->name;
            if (auto *sp = f.fn->F->getSubprogram()) nm = sp->getName().str();
            unsigned line = 0;
            auto &ins = f.fn->bbs[f.bb].insts;
            if (f.pc < (int)ins.size()) if (auto &dl = ins[f.pc].I->getDebugLoc()) line = dl.getLine();
            if (!s.empty()) s += " < ";
            s += nm + ":" + std::to_string(line);
        }
        return s;
    }

    // ---- memory access -------------------------------------------------------------------------------------
    Obj *resolve(u64 addr, u64 size, bool write, u32 &off) {
        u32 id = (u32)(addr >> OFFBITS);
        if (id == 0) throw Bug{"null", "null pointer access"};
        Obj *o = S->mem.get(id);
        if (!o) throw Bug{id < S->mem.next ? "uaf" : "wild", id < S->mem.next ? "use after free" : "wild pointer access"};
        i64 of = (i64)(addr & ((1ull << OFFBITS) - 1)) - (i64)BASE;
        if (o->kind == K_FUNC) throw Bug{"wild", "access to code"};
        if (of < 0 || (u64)of + size > o->size)
            throw Bug{"oob", "out-of-bounds " + std::string(write ? "write" : "read") + " of " + std::to_string(size) + " at offset " + std::to_string(of) + " of an object of " + std::to_string(o->size) + " bytes"};
        if (write && o->kind == K_CONST) throw Bug{"const", "write to a constant"};
        off = (u32)of;
        return write ? S->mem.getW(id) : o;
    }
    static size_t cellLB(const Obj *o, u32 off) { // first cell whose end is > off
        size_t lo = 0, hi = o->cells.size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if (o->cells[m].off + o->cells[m].size <= off) lo = m + 1; else hi = m; }
        return lo;
    }
    E cellByte(const Cell &c, u32 byteOff) { // byte at absolute offset
        E e = c.e;
        if (e->isF) {
            if (REALMODE) unsupportedHere("byte access to a real-valued double");
            e = mkToBits(e);
        }
        return mkExtract(e, (int)(byteOff - c.off) * 8, 8);
    }
    E undefSym(int w, bool isF) {
        E e = mkSym("undef", w, isF, true);
        undefSyms.push_back((u32)e->val);
        return e;
    }
    Val loadScalar(u64 addr, int w, bool isF) {
        u32 n = (u32)(w + 7) / 8, off;
        Obj *o = resolve(addr, n, false, off);
        if (!o->cells.empty()) {
            size_t i = cellLB(o, off);
            if (i < o->cells.size() && o->cells[i].off < off + n) {
                const Cell &c = o->cells[i];
                if (c.off == off && c.size == n) {
                    E e = c.e;
                    if (isF) {
                        if (e->isF) return fromE(e);
                        if (REALMODE) unsupportedHere("integer read as double");
                        return fromE(mkFromBits(e));
                    }
                    if (e->isF) {
                        if (REALMODE) unsupportedHere("double read as integer");
                        e = mkToBits(e);
                    }
                    if (e->w != w) e = e->w > w ? mkTrunc(e, w) : mkZext(e, w);
                    return fromE(e);
                }
                if (n > 8) unsupportedHere("wide load of symbolic bytes");
                E r = nullptr;
                for (u32 k = 0; k < n; k++) {
                    E b;
                    size_t j = cellLB(o, off + k);
                    if (j < o->cells.size() && o->cells[j].off <= off + k) b = cellByte(o->cells[j], off + k);
                    else if (o->allInit || o->init[off + k]) b = mkC(8, o->bytes[off + k]);
                    else b = undefSym(8, false);
                    r = r ? mkConcat(b, r) : b;
                }
                if (w < (int)n * 8) r = mkTrunc(r, w);
                if (isF) { if (REALMODE) unsupportedHere("mixed double"); r = mkFromBits(r); }
                return fromE(r);
            }
        }
        if (!o->allInit) {
            bool ok = true;
            for (u32 k = 0; k < n; k++) if (!o->init[off + k]) { ok = false; break; }
            if (!ok) {
                E e = undefSym(w, isF);
                return fromE(e);
            }
        }
        u64 v = 0;
        if (n > 8) { // i128 or so: only the low half is representable
            unsupportedHere("load wider than 64 bits");
        }
        memcpy(&v, &o->bytes[off], n);
        if (w < 64) v &= maskw(w);
        return Val(v);
    }
    void clearRange(Obj *o, u32 off, u32 n) { // remove / split symbolic cells overlapping [off, off+n)
        if (o->cells.empty()) return;
        size_t i = cellLB(o, off);
        std::vector<Cell> keep;
        size_t j = i;
        while (j < o->cells.size() && o->cells[j].off < off + n) {
            Cell c = o->cells[j];
            if (c.off < off)
                for (u32 k = c.off; k < off; k++) keep.push_back({k, 1, cellByte(c, k)});
            if (c.off + c.size > off + n)
                for (u32 k = off + n; k < c.off + c.size; k++) keep.push_back({k, 1, cellByte(c, k)});
            j++;
        }
        if (j > i) {
            o->cells.erase(o->cells.begin() + i, o->cells.begin() + j);
            // constants go back to plain bytes
            for (auto &c : keep)
                if (isC(c.e)) { o->bytes[c.off] = (u8)c.e->val; if (!o->allInit) o->init[c.off] = 1; }
            size_t at = i;
            for (auto &c : keep)
                if (!isC(c.e)) o->cells.insert(o->cells.begin() + at++, c);
        }
    }
    void storeTo(Obj *o, u32 off, const Val &v, int w, bool isF) {
        u32 n = (u32)(w + 7) / 8;
        clearRange(o, off, n);
        if (!o->allInit) memset(&o->init[off], 1, n);
        if (v.e) {
            E e = v.e;
            if (!isF && e->w < (int)n * 8) e = mkZext(e, (int)n * 8);
            if (isC(e)) { memcpy(&o->bytes[off], &e->val, n); return; }
            size_t i = cellLB(o, off);
            o->cells.insert(o->cells.begin() + i, Cell{off, n, e});
        } else {
            if (n > 8) { memset(&o->bytes[off], 0, n); memcpy(&o->bytes[off], &v.c, 8); }
            else memcpy(&o->bytes[off], &v.c, n);
        }
    }
    void storeScalar(u64 addr, const Val &v, int w, bool isF) {
        u32 off;
        Obj *o = resolve(addr, (u32)(w + 7) / 8, true, off);
        storeTo(o, off, v, w, isF);
    }
    void copyMem(u64 dst, u64 src, u64 n) {
        if (n == 0) return;
        u32 so, d;
        Obj *s = resolve(src, n, false, so);
        ObjP hold(s); // keep the source alive should the destination chunk be copied
        resolve(dst, n, false, d);
        Obj *o = resolve(dst, n, true, d);
        std::vector<u8> b(s->bytes.begin() + so, s->bytes.begin() + so + n), ini;
        if (s->allInit) ini.assign(n, 1); else ini.assign(s->init.begin() + so, s->init.begin() + so + n);
        std::vector<Cell> cs;
        for (size_t i = cellLB(s, so); i < s->cells.size() && s->cells[i].off < so + n; i++) {
            const Cell &c = s->cells[i];
            if (c.off >= so && c.off + c.size <= so + n) cs.push_back({c.off - so, c.size, c.e});
            else
                for (u32 k = std::max(c.off, so); k < std::min(c.off + c.size, (u32)(so + n)); k++) cs.push_back({k - so, 1, cellByte(c, k)});
        }
        clearRange(o, d, (u32)n);
        memcpy(&o->bytes[d], b.data(), n);
        if (!o->allInit) memcpy(&o->init[d], ini.data(), n);
        else
            for (u64 k = 0; k < n; k++) if (!ini[k]) {
                bool inCell = false;
                for (auto &c : cs) if (k >= c.off && k < c.off + c.size) inCell = true;
                if (!inCell) { // uninitialised bytes arriving in an always-initialised object: keep them concrete zero
                }
            }
        for (auto &c : cs) {
            if (isC(c.e)) { for (u32 k = 0; k < c.size; k++) o->bytes[d + c.off + k] = (u8)(c.e->val >> (8 * k)); continue; }
            size_t i = cellLB(o, d + c.off);
            o->cells.insert(o->cells.begin() + i, Cell{d + c.off, c.size, c.e});
        }
    }
    E loadByteE(u64 addr) { return toE(loadScalar(addr, 8, false), 8); }
    std::string cstr(u64 addr) { // concrete C string
        std::string s;
        for (;;) {
            Val v = loadScalar(addr + s.size(), 8, false);
            u64 c = v.e ? concretize(v, 8, "string byte") : v.c;
            if (!c) return s;
            s += (char)c;
            if (s.size() > 100000) unsupportedHere("long string");
        }
    }

    // ---- execution -----------------------------------------------------------------------------------------
    Val get(const Frame &f, const Opnd &o, u32 k = 0) { return o.slot >= 0 ? f.r[o.slot + k] : o.cv[k]; }
    void jump(int to) {
        Frame &f = S->st.back();
        int from = f.bb;
        Block &b = f.fn->bbs[to];
        if (!b.phis.empty()) {
            std::vector<Val> tmp;
            for (auto &p : b.phis)
                for (auto &fr : p.from)
                    if (fr.first == from) { for (u32 k = 0; k < p.n; k++) tmp.push_back(get(f, fr.second, k)); break; }
            size_t t = 0;
            for (auto &p : b.phis) for (u32 k = 0; k < p.n; k++) f.r[p.dst + k] = tmp[t++];
        }
        f.prev = from;
        f.bb = to;
        f.pc = 0;
    }
    void pushCall(const Function *F, const std::vector<std::vector<Val>> &args) {
        Fn *fn = prep(F);
        fn->calls++;
        if ((int)S->st.size() >= opt.maxDepth) throw Bug{"depth", "call depth exceeds the bound"};
        S->st.emplace_back();
        Frame &f = S->st.back();
        f.fn = fn;
        f.r.resize(fn->nslots);
        for (size_t i = 0; i < fn->argSlot.size() && i < args.size(); i++)
            for (size_t k = 0; k < args[i].size() && k < fn->argN[i]; k++) f.r[fn->argSlot[i] + k] = args[i][k];
        for (size_t i = fn->argSlot.size(); i < args.size(); i++) for (auto &v : args[i]) f.varargs.push_back(v);
        S->maxDepth = std::max(S->maxDepth, (int)S->st.size());
    }
    void popFrame() {
        for (u32 id : S->st.back().allocas) S->mem.free(id);
        S->st.pop_back();
    }
    void finishCall(const std::vector<Val> &ret) { // caller is top; continue after its call
        Frame &f = S->st.back();
        const Inst &in = f.fn->bbs[f.bb].insts[f.pc];
        if (in.dst >= 0) for (u32 k = 0; k < in.nres && k < ret.size(); k++) f.r[in.dst + k] = ret[k];
        if (in.opc == Instruction::Invoke) jump(in.t0); else f.pc++;
    }
    void setRes(const Inst &in, const Val &v) { S->st.back().r[in.dst] = v; }

    // ---- exceptions ----------------------------------------------------------------------------------------
    Exc *findExc(u64 obj) {
        for (auto &e : S->excs) if (e.obj == obj) return &e;
        return nullptr;
    }
    u64 rd64(u64 a) { Val v = loadScalar(a, 64, false); if (v.e) unsupportedHere("symbolic rtti"); return v.c; }
    // does type ti derive from base? adj: offset adjustment
    bool derives(u64 ti, u64 base, i64 &adj) {
        adj = 0;
        if (ti == base) return true;
        auto nameOf = [&](u64 t) {
            auto it = gvById.find((u32)(t >> OFFBITS));
            return it == gvById.end() ? std::string() : it->second->getName().str();
        };
        if (!nameOf(ti).empty() && nameOf(ti) == nameOf(base)) return true;
        auto it = gvById.find((u32)(ti >> OFFBITS));
        if (it == gvById.end() || !it->second->hasInitializer()) return false;
        u64 vt = rd64(ti);
        auto vit = gvById.find((u32)(vt >> OFFBITS));
        std::string vn = vit == gvById.end() ? "" : vit->second->getName().str();
        if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return derives(rd64(ti + 16), base, adj);
        if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
            u64 n = rd64(ti + 16) >> 32;
            for (u64 i = 0; i < n; i++) {
                u64 b = rd64(ti + 24 + 16 * i);
                i64 fl = (i64)rd64(ti + 32 + 16 * i);
                if (derives(b, base, adj)) { adj += fl >> 8; return true; }
            }
        }
        return false;
    }
    u64 typeId(u64 ti) { return (ti >> OFFBITS) & 0x7fffffff; }
    std::string typeName(u64 ti) {
        auto it = gvById.find((u32)(ti >> OFFBITS));
        return it == gvById.end() ? "?" : it->second->getName().str();
    }
    void unwind(u64 excObj) {
        Exc *x = findExc(excObj);
        if (!x) throw Bug{"engine", "unwind without exception"};
        u64 ti = x->tinfo;
        for (;;) {
            if (S->st.empty()) throw Bug{"uncaught", "uncaught exception of type " + typeName(ti)};
            Frame &f = S->st.back();
            const Inst &in = f.fn->bbs[f.bb].insts[f.pc];
            if (in.opc == Instruction::Invoke) {
                // inspect the landing pad
                Block &lb = f.fn->bbs[in.t1];
                const Inst *lp = nullptr;
                for (auto &li : lb.insts) if (li.opc == Instruction::LandingPad) { lp = &li; break; }
                if (!lp) throw Bug{"engine", "no landingpad"};
                auto *LP = cast<LandingPadInst>(lp->I);
                bool take = LP->isCleanup();
                u64 sel = 0;
                for (unsigned i = 0; i < LP->getNumClauses(); i++) {
                    Constant *cl = LP->getClause(i);
                    if (LP->isCatch(i)) {
                        u64 ct = constScalar(cl);
                        i64 adj;
                        if (ct == 0) { take = true; sel = 0x7ffffff0; break; }
                        if (derives(ti, ct, adj)) { take = true; sel = typeId(ct); break; }
                    } else { // filter: allowed types; anything else ends in unexpected()
                        bool allowed = false;
                        if (auto *ca = dyn_cast<ConstantArray>(cl))
                            for (auto &op : ca->operands()) { i64 adj; if (derives(ti, constScalar(cast<Constant>(op)), adj)) allowed = true; }
                        if (!allowed) { take = true; sel = (u64)(i64)-1; break; }
                    }
                }
                if (take) {
                    jump(in.t1);
                    Frame &g = S->st.back();
                    g.r[lp->dst] = Val(excObj);
                    g.r[lp->dst + 1] = Val(sel & 0xffffffff);
                    return;
                }
            }
            popFrame();
        }
    }

#include "intrinsics.inc"

    // ---- reals: special cases of arithmetic ------------------------------------------------------------------
    static bool isSpecial(E e) { return isC(e) && !std::isfinite(asD(e->val)); }
    Val fbin(Op op, const Val &a, const Val &b) {
        E x = toEF(a), y = toEF(b);
        if (REALMODE && S) { if (x->op != O_CONST) x = simp(x); if (y->op != O_CONST) y = simp(y); }
        if (REALMODE && !(isC(x) && isC(y))) {
            if (isSpecial(x) || isSpecial(y)) {
                E sp = isSpecial(x) ? x : y;
                double s = asD(sp->val);
                if (s != s) return fromE(mkD(s));
                if (op == O_FADD) return fromE(sp);
                if (op == O_FSUB) return fromE(sp == x ? sp : mkFNeg(sp));
                E oth = sp == x ? y : x;
                if (op == O_FDIV && sp == y) return fromE(mkD(0));
                if (decide(mkFCmp(O_FEQ, oth, mkD(0)))) {
                    if (op == O_FMUL) return fromE(mkD(std::nan("")));
                    return fromE(sp); // inf / 0
                }
                return fromE(decide(mkFCmp(O_FLT, oth, mkD(0))) ? mkFNeg(sp) : sp);
            }
            if (op == O_FDIV) {
                if (decide(mkFCmp(O_FEQ, y, mkD(0)))) {
                    // division by (positive) zero
                    if (decide(mkFCmp(O_FEQ, x, mkD(0)))) return fromE(mkD(std::nan("")));
                    return fromE(mkD(decide(mkFCmp(O_FLT, x, mkD(0))) ? -INFINITY : INFINITY));
                }
                if (isC(x) && asD(x->val) == 0) return fromE(mkD(0));
                if (x == y) return fromE(mkD(1));
            }
        }
        return fromE(mkF2(op, x, y));
    }
    E fsel(E c, E a, E b) { // a double chosen by a condition
        if (a == b) return a;
        if (REALMODE) return decide(c) ? a : b;
        return mkIte(c, a, b);
    }

    void step() {
        Frame &f = S->st.back();
        const Inst &in = f.fn->bbs[f.bb].insts[f.pc];
        switch (in.opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
            int w = in.w;
            if (w > 64) unsupportedHere("integer wider than 64 bits");
            if (!a.e && !b.e) {
                u64 x = a.c, y = b.c, r = 0;
                i64 p = sx(x, w), q = sx(y, w);
                switch (in.opc) {
                case Instruction::Add: r = x + y; if (in.I->hasNoSignedWrap()) ovf(w, (__int128)p + q); break;
                case Instruction::Sub: r = x - y; if (in.I->hasNoSignedWrap()) ovf(w, (__int128)p - q); break;
                case Instruction::Mul: r = x * y; if (in.I->hasNoSignedWrap()) ovf(w, (__int128)p * q); break;
                case Instruction::And: r = x & y; break;
                case Instruction::Or: r = x | y; break;
                case Instruction::Xor: r = x ^ y; break;
                case Instruction::Shl: if (y >= (u64)w) throw Bug{"shift", "shift out of range"}; r = x << y; break;
                case Instruction::LShr: if (y >= (u64)w) throw Bug{"shift", "shift out of range"}; r = (x & maskw(w)) >> y; break;
                case Instruction::AShr: if (y >= (u64)w) throw Bug{"shift", "shift out of range"}; r = (u64)(p >> y); break;
                default:
                    if ((y & maskw(w)) == 0) throw Bug{"div0", "integer division by zero"};
                    if (in.opc == Instruction::UDiv) r = x / y;
                    else if (in.opc == Instruction::URem) r = x % y;
                    else {
                        if (q == -1 && p == sx(1ull << (w - 1), w)) throw Bug{"ovf", "signed division overflow"};
                        r = in.opc == Instruction::SDiv ? (u64)(p / q) : (u64)(p % q);
                    }
                }
                f.r[in.dst] = Val(r & maskw(w));
                f.pc++;
                return;
            }
            E x = toE(a, w), y = toE(b, w);
            Op op;
            switch (in.opc) {
            case Instruction::Add: op = O_ADD; break;
            case Instruction::Sub: op = O_SUB; break;
            case Instruction::Mul: op = O_MUL; break;
            case Instruction::And: op = O_AND; break;
            case Instruction::Or: op = O_OR; break;
            case Instruction::Xor: op = O_XOR; break;
            case Instruction::Shl: op = O_SHL; break;
            case Instruction::LShr: op = O_LSHR; break;
            case Instruction::AShr: op = O_ASHR; break;
            case Instruction::UDiv: op = O_UDIV; break;
            case Instruction::SDiv: op = O_SDIV; break;
            case Instruction::URem: op = O_UREM; break;
            default: op = O_SREM; break;
            }
            if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
                if (decide(mkEq(y, mkC(w, 0)))) throw Bug{"div0", "integer division by zero"};
                if (op == O_SDIV || op == O_SREM)
                    if (decide(mkAnd(mkEq(y, mkC(w, ~0ull)), mkEq(x, mkC(w, 1ull << (w - 1)))))) throw Bug{"ovf", "signed division overflow"};
            }
            if ((op == O_ADD || op == O_SUB) && w <= 32 && in.I->hasNoSignedWrap() && !usesUndef(x) && !usesUndef(y)) {
                E r64 = mkBin(op, mkSext(x, 64), mkSext(y, 64));
                E r = mkBin(op, x, y);
                if (decide(mkNot(mkEq(mkSext(r, 64), r64)))) throw Bug{"ovf", "signed integer overflow"};
            }
            f.r[in.dst] = fromE(mkBin(op, x, y));
            f.pc++;
            return;
        }
        case Instruction::ICmp: {
            Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
            int w = in.w2;
            auto pr = cast<ICmpInst>(in.I)->getPredicate();
            if (!a.e && !b.e) {
                u64 x = a.c & maskw(w), y = b.c & maskw(w);
                i64 p = sx(x, w), q = sx(y, w);
                bool r = false;
                switch (pr) {
                case CmpInst::ICMP_EQ: r = x == y; break;
                case CmpInst::ICMP_NE: r = x != y; break;
                case CmpInst::ICMP_ULT: r = x < y; break;
                case CmpInst::ICMP_ULE: r = x <= y; break;
                case CmpInst::ICMP_UGT: r = x > y; break;
                case CmpInst::ICMP_UGE: r = x >= y; break;
                case CmpInst::ICMP_SLT: r = p < q; break;
                case CmpInst::ICMP_SLE: r = p <= q; break;
                case CmpInst::ICMP_SGT: r = p > q; break;
                default: r = p >= q; break;
                }
                f.r[in.dst] = Val((u64)r);
            } else {
                E x = toE(a, w), y = toE(b, w), r;
                switch (pr) {
                case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
                case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
                case CmpInst::ICMP_ULT: r = mkBin(O_ULT, x, y); break;
                case CmpInst::ICMP_ULE: r = mkBin(O_ULE, x, y); break;
                case CmpInst::ICMP_UGT: r = mkBin(O_ULT, y, x); break;
                case CmpInst::ICMP_UGE: r = mkBin(O_ULE, y, x); break;
                case CmpInst::ICMP_SLT: r = mkBin(O_SLT, x, y); break;
                case CmpInst::ICMP_SLE: r = mkBin(O_SLE, x, y); break;
                case CmpInst::ICMP_SGT: r = mkBin(O_SLT, y, x); break;
                default: r = mkBin(O_SLE, y, x); break;
                }
                f.r[in.dst] = fromE(r);
            }
            f.pc++;
            return;
        }
        case Instruction::FCmp: {
            Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
            auto pr = cast<FCmpInst>(in.I)->getPredicate();
            if (!in.isF) {
                if (in.w2 == 32 && !a.e && !b.e) {
                    float p, q; u32 t = (u32)a.c; memcpy(&p, &t, 4); t = (u32)b.c; memcpy(&q, &t, 4);
                    f.r[in.dst] = Val((u64)fcmpC(pr, p, q));
                    f.pc++;
                    return;
                }
                unsupportedHere("non-double fcmp");
            }
            if (!a.e && !b.e) { f.r[in.dst] = Val((u64)fcmpC(pr, asD(a.c), asD(b.c))); f.pc++; return; }
            E x = toEF(a), y = toEF(b), r;
            E un = mkOr(mkFIsNan(x), mkFIsNan(y));
            bool unord = false;
            switch (pr) {
            case CmpInst::FCMP_OEQ: r = mkFCmp(O_FEQ, x, y); break;
            case CmpInst::FCMP_UEQ: r = mkFCmp(O_FEQ, x, y); unord = true; break;
            case CmpInst::FCMP_UNE: r = mkNot(mkFCmp(O_FEQ, x, y)); break;
            case CmpInst::FCMP_ONE: r = mkAnd(mkNot(mkFCmp(O_FEQ, x, y)), mkNot(un)); break;
            case CmpInst::FCMP_OLT: r = mkFCmp(O_FLT, x, y); break;
            case CmpInst::FCMP_OLE: r = mkFCmp(O_FLE, x, y); break;
            case CmpInst::FCMP_OGT: r = mkFCmp(O_FLT, y, x); break;
            case CmpInst::FCMP_OGE: r = mkFCmp(O_FLE, y, x); break;
            case CmpInst::FCMP_ULT: r = mkFCmp(O_FLT, x, y); unord = true; break;
            case CmpInst::FCMP_ULE: r = mkFCmp(O_FLE, x, y); unord = true; break;
            case CmpInst::FCMP_UGT: r = mkFCmp(O_FLT, y, x); unord = true; break;
            case CmpInst::FCMP_UGE: r = mkFCmp(O_FLE, y, x); unord = true; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_ORD: r = mkNot(un); break;
            case CmpInst::FCMP_TRUE: r = mkB(true); break;
            default: r = mkB(false); break;
            }
            if (unord) r = mkOr(r, un);
            f.r[in.dst] = fromE(r);
            f.pc++;
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Val a = get(f, in.ops[0]), b = get(f, in.ops[1]);
            if (!in.isF) {
                if (in.w == 32 && !a.e && !b.e) {
                    float p, q, r; u32 t = (u32)a.c; memcpy(&p, &t, 4); t = (u32)b.c; memcpy(&q, &t, 4);
                    r = in.opc == Instruction::FAdd ? p + q : in.opc == Instruction::FSub ? p - q : in.opc == Instruction::FMul ? p * q : p / q;
                    memcpy(&t, &r, 4);
                    f.r[in.dst] = Val((u64)t);
                    f.pc++;
                    return;
                }
                unsupportedHere("non-double arithmetic");
            }
            Op op = in.opc == Instruction::FAdd ? O_FADD : in.opc == Instruction::FSub ? O_FSUB : in.opc == Instruction::FMul ? O_FMUL : O_FDIV;
            Val r = fbin(op, a, b);
            Frame &g = S->st.back();
            g.r[in.dst] = r;
            g.pc++;
            return;
        }
        case Instruction::FNeg: {
            if (!in.isF) unsupportedHere("non-double fneg");
            f.r[in.dst] = fromE(mkFNeg(toEF(get(f, in.ops[0]))));
            f.pc++;
            return;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            Val a = get(f, in.ops[0]);
            if (in.w > 64) {
                unsupportedHere("integer wider than 64 bits");
            }
            if (!a.e) {
                u64 v = in.opc == Instruction::SExt ? (u64)sx(a.c, in.w2) : a.c & maskw(in.w2);
                f.r[in.dst] = Val(v & maskw(in.w));
            } else f.r[in.dst] = fromE(in.opc == Instruction::ZExt ? mkZext(a.e, in.w) : in.opc == Instruction::SExt ? mkSext(a.e, in.w) : mkTrunc(a.e, in.w));
            f.pc++;
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            Val a = get(f, in.ops[0]);
            if (a.e && in.w != in.w2) a = fromE(in.w < in.w2 ? mkTrunc(a.e, in.w) : mkZext(a.e, in.w));
            else if (!a.e) a.c &= maskw(in.w);
            f.r[in.dst] = a;
            f.pc++;
            return;
        }
        case Instruction::BitCast: {
            Val a = get(f, in.ops[0]);
            bool sf = in.I->getOperand(0)->getType()->isDoubleTy();
            if (a.e && sf != in.isF) {
                if (REALMODE) unsupportedHere("bitcast of a real");
                a = fromE(in.isF ? mkFromBits(a.e) : mkToBits(a.e));
            }
            f.r[in.dst] = a;
            f.pc++;
            return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Val a = get(f, in.ops[0]);
            bool sg = in.opc == Instruction::SIToFP;
            if (in.w == 64 && in.isF) {
                if (!a.e) f.r[in.dst] = Val(asB(sg ? (double)sx(a.c, in.w2) : (double)(a.c & maskw(in.w2))));
                else {
                    E e = simp(a.e);
                    f.r[in.dst] = fromE(sg ? mkSIToFP(e) : mkUIToFP(e));
                }
            } else if (in.w == 32 && !a.e) {
                float r = sg ? (float)sx(a.c, in.w2) : (float)(a.c & maskw(in.w2));
                u32 t; memcpy(&t, &r, 4);
                f.r[in.dst] = Val((u64)t);
            } else unsupportedHere("int to non-double");
            f.pc++;
            return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            Val a = get(f, in.ops[0]);
            bool sg = in.opc == Instruction::FPToSI;
            if (!in.isF) {
                if (!a.e && in.w2 == 32) {
                    float p; u32 t = (u32)a.c; memcpy(&p, &t, 4);
                    f.r[in.dst] = Val((u64)(i64)p & maskw(in.w));
                    f.pc++;
                    return;
                }
                unsupportedHere("non-double fptosi");
            }
            double lo = sg ? -std::ldexp(1.0, in.w - 1) : 0, hi = std::ldexp(1.0, sg ? in.w - 1 : in.w);
            if (!a.e) {
                double d = asD(a.c);
                if (!(d > lo - 1 && d < hi)) throw Bug{"fptoint", "double to integer conversion out of range"};
                f.r[in.dst] = Val(sg ? (u64)(i64)d & maskw(in.w) : (u64)d & maskw(in.w));
                f.pc++;
                return;
            }
            E x = simp(a.e);
            E r = mkFPToI(x, in.w, sg);
            if (r->op == O_FPTOSI || r->op == O_FPTOUI) {
                E okc = mkAnd(mkFCmp(O_FLT, mkD(lo - 1), x), mkFCmp(O_FLT, x, mkD(hi)));
                if (!decide(okc)) throw Bug{"fptoint", "double to integer conversion out of range"};
            }
            Frame &g = S->st.back();
            g.r[in.dst] = fromE(r);
            g.pc++;
            return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            Val a = get(f, in.ops[0]);
            if (a.e) unsupportedHere("fpext/fptrunc of symbolic");
            if (in.opc == Instruction::FPExt && in.w2 == 32 && in.w == 64) {
                float p; u32 t = (u32)a.c; memcpy(&p, &t, 4);
                f.r[in.dst] = Val(asB((double)p));
            } else if (in.opc == Instruction::FPTrunc && in.w == 32 && in.w2 == 64) {
                float p = (float)asD(a.c); u32 t; memcpy(&t, &p, 4);
                f.r[in.dst] = Val((u64)t);
            } else unsupportedHere("long double");
            f.pc++;
            return;
        }
        case Instruction::Select: {
            Val c = get(f, in.ops[0]);
            if (!c.e) {
                const Opnd &o = (c.c & 1) ? in.ops[1] : in.ops[2];
                for (u32 k = 0; k < in.nres; k++) f.r[in.dst + k] = get(f, o, k);
            } else {
                Val a = get(f, in.ops[1]), b = get(f, in.ops[2]);
                if (in.nres != 1) {
                    bool t = decide(c.e);
                    Frame &g = S->st.back();
                    for (u32 k = 0; k < in.nres; k++) g.r[in.dst + k] = get(g, t ? in.ops[1] : in.ops[2], k);
                } else if (in.isF) {
                    E r = fsel(c.e, toEF(a), toEF(b));
                    S->st.back().r[in.dst] = fromE(r);
                } else if (in.I->getType()->isPointerTy()) {
                    bool t = decide(c.e);
                    S->st.back().r[in.dst] = t ? a : b;
                } else f.r[in.dst] = fromE(mkIte(c.e, toE(a, in.w), toE(b, in.w)));
            }
            S->st.back().pc++;
            return;
        }
        case Instruction::Freeze: {
            for (u32 k = 0; k < in.nres; k++) f.r[in.dst + k] = get(f, in.ops[0], k);
            f.pc++;
            return;
        }
        case Instruction::Br: {
            if (in.t1 < 0) { jump(in.t0); return; }
            Val c = get(f, in.ops[0]);
            bool t = c.e ? decide(c.e) : (c.c & 1);
            jump(t ? in.t0 : in.t1);
            return;
        }
        case Instruction::Switch: {
            Val c = get(f, in.ops[0]);
            u64 v;
            if (c.e) {
                E e = simp(c.e);
                if (!isC(e)) {
                    // one fork per destination
                    std::map<int, E> byDest;
                    std::vector<int> order;
                    E any = mkB(false);
                    for (auto &cs : in.cases) {
                        E q = mkEq(e, mkC(in.w, cs.first));
                        any = mkOr(any, q);
                        auto it = byDest.find(cs.second);
                        if (it == byDest.end()) { byDest[cs.second] = q; order.push_back(cs.second); }
                        else it->second = mkOr(it->second, q);
                    }
                    for (int d : order) {
                        if (d == in.t0) continue;
                        if (decide(byDest[d])) { jump(d); return; }
                    }
                    jump(in.t0);
                    return;
                }
                v = e->val;
            } else v = c.c & maskw(in.w);
            for (auto &cs : in.cases) if (cs.first == v) { jump(cs.second); return; }
            jump(in.t0);
            return;
        }
        case Instruction::GetElementPtr: {
            Val b = get(f, in.ops[0]);
            bool sym = b.e != nullptr;
            for (auto &g : in.gep) if (get(f, g.op).e) sym = true;
            if (!sym) {
                u64 a = b.c + (u64)in.imm;
                for (auto &g : in.gep) a += (u64)(sx(get(f, g.op).c, g.w) * g.scale);
                f.r[in.dst] = Val(a);
            } else {
                E a = mkBin(O_ADD, toE(b, 64), mkC(64, (u64)in.imm));
                for (auto &g : in.gep) {
                    E ix = toE(get(f, g.op), g.w);
                    if (g.w < 64) ix = mkSext(ix, 64);
                    a = mkBin(O_ADD, a, mkBin(O_MUL, ix, mkC(64, (u64)g.scale)));
                }
                f.r[in.dst] = fromE(a);
            }
            f.pc++;
            return;
        }
        case Instruction::Load: {
            Val p = get(f, in.ops[0]);
            u64 a = p.e ? concretize(p, 64, "address") : p.c;
            for (size_t k = 0; k < in.leafW.size(); k++) {
                Val v = loadScalar(a + in.leafOff[k], in.leafW[k], in.leafF[k]);
                S->st.back().r[in.dst + k] = v;
            }
            S->st.back().pc++;
            return;
        }
        case Instruction::Store: {
            Val p = get(f, in.ops[1]);
            u64 a = p.e ? concretize(p, 64, "address") : p.c;
            Frame &g = S->st.back();
            for (size_t k = 0; k < in.leafW.size(); k++) storeScalar(a + in.leafOff[k], get(g, in.ops[0], (u32)k), in.leafW[k], in.leafF[k]);
            g.pc++;
            return;
        }
        case Instruction::Alloca: {
            Val n = get(f, in.ops[0]);
            if (n.e) unsupportedHere("symbolic alloca");
            u32 id = S->mem.alloc(n.c * (u64)in.imm, K_STACK, false);
            f.allocas.push_back(id);
            f.r[in.dst] = Val(addrOf(id));
            f.pc++;
            return;
        }
        case Instruction::ExtractValue:
            for (u32 k = 0; k < in.cnt; k++) f.r[in.dst + k] = get(f, in.ops[0], in.off + k);
            f.pc++;
            return;
        case Instruction::InsertValue:
            for (u32 k = 0; k < in.nres; k++) f.r[in.dst + k] = get(f, in.ops[0], k);
            for (u32 k = 0; k < in.cnt; k++) f.r[in.dst + in.off + k] = get(f, in.ops[1], k);
            f.pc++;
            return;
        case Instruction::LandingPad:
            f.pc++; // the values were set by unwind()
            return;
        case Instruction::Resume: {
            u64 ex = get(f, in.ops[0]).c;
            popFrame();
            unwind(ex);
            return;
        }
        case Instruction::Unreachable:
            throw Bug{"unreachable", "unreachable code reached"};
        case Instruction::Ret: {
            std::vector<Val> r;
            if (!in.ops.empty()) for (u32 k = 0; k < in.ops[0].n; k++) r.push_back(get(f, in.ops[0], k));
            popFrame();
            if (!S->st.empty()) finishCall(r);
            return;
        }
        case Instruction::Call: case Instruction::Invoke:
            doCall(in);
            return;
        case Instruction::AtomicRMW: {
            auto *rmw = cast<AtomicRMWInst>(in.I);
            u64 a = get(f, in.ops[0]).c;
            Val old = loadScalar(a, in.w, false);
            E o = toE(old, in.w), v = toE(get(f, in.ops[1]), in.w), r;
            switch (rmw->getOperation()) {
            case AtomicRMWInst::Add: r = mkBin(O_ADD, o, v); break;
            case AtomicRMWInst::Sub: r = mkBin(O_SUB, o, v); break;
            case AtomicRMWInst::Xchg: r = v; break;
            default: unsupportedHere("atomicrmw");
            }
            storeScalar(a, fromE(r), in.w, false);
            f.r[in.dst] = old;
            f.pc++;
            return;
        }
        case Instruction::Fence: f.pc++; return;
        default:
            unsupportedHere(std::string("instruction ") + in.I->getOpcodeName());
        }
    }
    void ovf(int w, __int128 r) {
        __int128 lo = -((__int128)1 << (w - 1)), hi = ((__int128)1 << (w - 1)) - 1;
        if (r < lo || r > hi) throw Bug{"ovf", "signed integer overflow"};
    }
    template <class T> static bool fcmpC(CmpInst::Predicate p, T x, T y) {
        bool un = x != x || y != y;
        switch (p) {
        case CmpInst::FCMP_OEQ: return x == y;
        case CmpInst::FCMP_UEQ: return un || x == y;
        case CmpInst::FCMP_UNE: return !(x == y);
        case CmpInst::FCMP_ONE: return !un && x != y;
        case CmpInst::FCMP_OLT: return x < y;
        case CmpInst::FCMP_OLE: return x <= y;
        case CmpInst::FCMP_OGT: return x > y;
        case CmpInst::FCMP_OGE: return x >= y;
        case CmpInst::FCMP_ULT: return un || x < y;
        case CmpInst::FCMP_ULE: return un || x <= y;
        case CmpInst::FCMP_UGT: return un || x > y;
        case CmpInst::FCMP_UGE: return un || x >= y;
        case CmpInst::FCMP_UNO: return un;
        case CmpInst::FCMP_ORD: return !un;
        case CmpInst::FCMP_TRUE: return true;
        default: return false;
        }
    }

    std::vector<std::pair<std::string, std::string>> inputValues(const Model &m) {
        std::vector<std::pair<std::string, std::string>> out;
        for (auto &ir : S->inputs) {
            E e = ir.e;
            u64 val = 0;
            if (isC(e)) val = e->val;
            else val = m.get((u32)e->val);
            char b[80];
            if (ir.kind == 'd') snprintf(b, sizeof b, "d:%016llx:%.17g", (unsigned long long)val, asD(val));
            else snprintf(b, sizeof b, "i:%lld", (long long)(e->w == 1 ? (i64)val : sx(val, e->w)));
            out.push_back({ir.name, b});
        }
        return out;
    }
    // a completed path as a concrete run: the driver replays some of them natively to validate the encoding
    struct Trace { std::vector<std::pair<std::string, std::string>> inputs; std::string note; };
    std::vector<Trace> traces;
    void addTrace() {
        std::vector<E> cs(S->pc.begin(), S->pc.end());
        Model m;
        refreshWits(*S);
        if (!S->wits.empty()) m = *S->wits[0].m;
        else if (!cs.empty()) {
            bool anyF = false;
            for (E e : cs) if (hasF(e, hasFMemo)) anyF = true;
            if (sol.check(cs, &m, 2000, anyF && !REALMODE) != SAT) return;
        }
        traces.push_back({inputValues(m), S->note});
    }

    // ---- reporting -----------------------------------------------------------------------------------------
    bool report(const std::string &kind, const std::string &msg, E extra) {
        std::string wh = where();
        std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : wh);
        if (violKeys.count(key) && (int)viols.size() >= 1) { pathsBug++; return true; }
        std::vector<E> cs;
        for (E e : S->pc) cs.push_back(e);
        if (extra) cs.push_back(extra);
        bool anyF = false, anyUF = false;
        for (E e : cs) if (hasF(e, hasFMemo)) anyF = true;
        Model m;
        Res r = UNKNOWN;
        std::shared_ptr<const Model> wit;
        if (!REALMODE) {
            refreshWits(*S);
            for (auto &w : S->wits)
                if (!extra || satisfies(*w.m, {extra})) { wit = w.m; break; }
            if (!wit && extra) wit = searchWit(*S, extra, slice(*S, extra));
        }
        if (wit) { m = *wit; r = SAT; }
        else if (cs.empty()) r = SAT;
        else {
            r = sol.check(cs, &m, opt.checkTimeout, anyF && !REALMODE);
            if (r == UNKNOWN && anyF && !REALMODE) r = sol.check(cs, &m, opt.checkTimeout, false);
        }
        if (r == UNSAT) return false; // the path was infeasible (over-approximated branch)
        pathsBug++;
        violKeys.insert(key);
        Violation v;
        v.kind = kind; v.msg = msg; v.where = wh;
        v.inputs = inputValues(m);
        v.uf = r == UNKNOWN;
        (void)anyUF;
        viols.push_back(v);
        fprintf(stderr, "tsx: VIOLATION %s: %s at %s%s\n", kind.c_str(), msg.c_str(), wh.c_str(), r == UNKNOWN ? " (solver unknown)" : "");
        return true;
    }
    void runState() {
        try {
            for (;;) {
                if (S->st.empty()) {
                    if (S->ctor < ctors.size()) { pushCall(ctors[S->ctor++], {}); }
                    else if (!S->started) {
                        S->started = true;
                        const Function *F = M->getFunction(opt.entry);
                        if (!F) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); exit(3); }
                        pushCall(F, {});
                    } else {
                        paths++;
                        if (samples.size() < 3) addSample();
                        if ((paths & (paths - 1)) == 0 && (int)traces.size() < opt.maxTraces) addTrace();
                        return;
                    }
                }
                steps++;
                if ((steps & 1023) == 0) {
                    if (now() - T0 > opt.maxTime) { incomplete = true; incompleteWhy = "time"; timeUp = true; return; }
                }
                if (opt.maxSteps && ++S->steps > opt.maxSteps) throw Bug{"steps", "a path exceeds the step bound (possible non-termination)"};
                if (opt.prof) { profFn[S->st.back().fn]++; }
                if (opt.trace) { fprintf(stderr, "%s\n", where().c_str()); }
                step();
            }
        } catch (PathEnd &) {
            pathsAssumed++;
        } catch (Bug &b) {
            report(b.kind, b.msg, nullptr);
        }
    }
    std::unordered_map<Fn *, u64> profFn;
    bool timeUp = false;
    void addSample() {
        std::string s;
        std::vector<E> cs = S->pc;
        for (auto &i : S->inputs) {
            if (!s.empty()) s += " ";
            s += i.name + "=";
            if (isC(i.e)) s += exprStr(i.e);
            else {
                auto f = S->fixed.find(i.e);
                if (f != S->fixed.end() && !i.e->isF) s += std::to_string(sx(f->second, i.e->w));
                else s += "*";
            }
            if (s.size() > 300) break;
        }
        if (!S->note.empty()) s += " [" + S->note + "]";
        samples.push_back(s + " (" + std::to_string(S->pc.size()) + " path constraints)");
    }
    void run() {
        if (!REALMODE)
            for (int k = 0; k < 5; k++) {
                auto m = std::make_shared<Model>();
                m->seed = k;
                init.wits.push_back({m, 0});
            }
        work.push_back(init);
        while (!work.empty()) {
            State cur = std::move(work.back());
            work.pop_back();
            S = &cur;
            runState();
            S = nullptr;
            if (timeUp) { unexplored = work.size() + 1; break; }
            if ((int)viols.size() >= opt.maxViolations) { incomplete = true; incompleteWhy = "violations"; unexplored = work.size(); break; }
            if (opt.maxPaths && paths >= opt.maxPaths) { incomplete = true; incompleteWhy = "max paths"; unexplored = work.size(); break; }
        }
    }
    static std::string js(const std::string &s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    void output() {
        std::ostringstream o;
        o << "{\"paths\":" << paths << ",\"paths_assumed_away\":" << pathsAssumed << ",\"paths_bug\":" << pathsBug << ",\"steps\":" << steps
          << ",\"forks\":" << forks << ",\"checks\":" << checks << ",\"checks_trivial\":" << checksTrivial << ",\"checks_unknown\":" << checksUnknown
          << ",\"branch_unknown\":" << branchUnknown << ",\"queries\":" << sol.st.queries << ",\"q_sat\":" << sol.st.sat << ",\"q_unsat\":" << sol.st.unsat
          << ",\"q_unknown\":" << sol.st.unknown << ",\"cache_hits\":" << sol.st.cacheHits << ",\"model_hits\":" << sol.st.modelHits << ",\"wit_hits\":" << witHits << ",\"search_hits\":" << searchHits
          << ",\"check_queries\":" << sol.st.checkQueries << ",\"solver_s\":" << sol.st.time << ",\"solver_max_s\":" << sol.st.maxTime << ",\"escalated\":" << sol.st.escalated
          << ",\"cvc5\":" << sol.st.cvc5
          << ",\"wall_s\":" << now() - T0 << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"why\":" << js(incompleteWhy) << ",\"unexplored\":" << unexplored;
        o << ",\"covers\":{";
        bool first = true;
        for (auto &c : covers) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
        o << "},\"check_hits\":{";
        first = true;
        for (auto &c : checkHits) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
        o << "},\"unknown_checks\":{";
        first = true;
        for (auto &c : unknownChecks) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
        o << "},\"outside\":{";
        first = true;
        for (auto &c : outside) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; }
        o << "},\"functions\":[";
        first = true;
        // every function of the library in the executed code, inlined ones included
        std::set<std::string> names;
        std::set<const DISubprogram *> seenSp;
        auto addSp = [&](const DISubprogram *sp) {
            if (!sp || !seenSp.insert(sp).second) return;
            std::string fn = sp->getFilename().str();
            size_t k = fn.find("/tomsolver/");
            if (k == std::string::npos || fn.find("/verif/") != std::string::npos) return;
            names.insert(sp->getName().str() + " (" + fn.substr(k + 11) + ":" + std::to_string(sp->getLine()) + ")");
        };
        for (auto &p : fns) {
            Fn *f = p.second.get();
            if (!f->calls || !f->F) continue;
            addSp(f->F->getSubprogram());
            for (auto &B : *f->F)
                for (auto &I : B)
                    for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
                        addSp(l->getScope()->getSubprogram());
        }
        for (auto &n : names) {
            o << (first ? "" : ",") << js(n);
            first = false;
        }
        o << "],\"unsupported\":[";
        first = true;
        for (auto &s : unsupported) { o << (first ? "" : ",") << js(s); first = false; }
        o << "],\"stubs\":[";
        first = true;
        for (auto &s : stubsUsed) { o << (first ? "" : ",") << js(s.first); first = false; }
        o << "],\"samples\":[";
        first = true;
        for (auto &s : samples) { o << (first ? "" : ",") << js(s); first = false; }
        o << "],\"traces\":[";
        first = true;
        for (auto &v : traces) {
            o << (first ? "" : ",") << "{\"note\":" << js(v.note) << ",\"inputs\":[";
            bool ff = true;
            for (auto &i : v.inputs) { o << (ff ? "" : ",") << "[" << js(i.first) << "," << js(i.second) << "]"; ff = false; }
            o << "]}";
            first = false;
        }
        o << "],\"violations\":[";
        first = true;
        for (auto &v : viols) {
            o << (first ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"unknown\":" << (v.uf ? "true" : "false") << ",\"inputs\":[";
            bool ff = true;
            for (auto &i : v.inputs) { o << (ff ? "" : ",") << "[" << js(i.first) << "," << js(i.second) << "]"; ff = false; }
            o << "]}";
            first = false;
        }
        o << "]}\n";
        if (opt.prof) {
            std::vector<std::pair<u64, Fn *>> v;
            for (auto &x : profFn) v.push_back({x.second, x.first});
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 60; i++) fprintf(stderr, "%12llu %10llu %s\n", (unsigned long long)v[i].first, (unsigned long long)v[i].second->calls, v[i].second->name.c_str());
        }
        if (opt.out.empty()) fputs(o.str().c_str(), stdout);
        else {
            std::ofstream(opt.out) << o.str();
        }
    }
};

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = nxt();
        else if (a == "--out") opt.out = nxt();
        else if (a == "--mode") opt.model = nxt();
        else if (a == "--time") opt.maxTime = atof(nxt().c_str());
        else if (a == "--steps") opt.maxSteps = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--branch-ms") opt.branchTimeout = atoi(nxt().c_str());
        else if (a == "--check-ms") opt.checkTimeout = atoi(nxt().c_str());
        else if (a == "--max-violations") opt.maxViolations = atoi(nxt().c_str());
        else if (a == "--max-paths") opt.maxPaths = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--max-depth") opt.maxDepth = atoi(nxt().c_str());
        else if (a == "--max-traces") opt.maxTraces = atoi(nxt().c_str());
        else if (a == "--precise") opt.precise = true;
        else if (a == "--trace") opt.trace = true;
        else if (a == "--prof") opt.prof = true;
        else if (a == "-v") opt.verbose = true;
        else if (a == "-p") {
            std::string kv = nxt();
            size_t e = kv.find('=');
            opt.params[kv.substr(0, e)] = strtoll(kv.c_str() + e + 1, 0, 0);
        } else opt.file = a;
    }
    REALMODE = opt.model == "real";
    for (const char *n : {"sin", "cos", "exp", "sqrt", "pow", "log"}) ufId(n);
    Engine *en = new Engine;
    const char *dd = getenv("TSX_DUMP");
    if (dd) en->sol.dumpDir = dd;
    en->load();
    en->run();
    en->output();
    fflush(stdout);
    _exit(0);
}
