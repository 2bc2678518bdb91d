#include <fstream>
// ulsym: a symbolic executor for LLVM IR, used to decide properties of ulight.
#include "expr.hpp"
#include "solver.hpp"

#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <map>
#include <set>
#include <unistd.h>

using namespace llvm;

static const u64 GLOBAL_BASE = 0x10000000ull, FUNC_BASE = 0x08000000ull, HEAP_BASE = 0x200000000ull, STACK_BASE = 0x400000000ull;

struct Val {
    u128 c = 0;
    E e = nullptr;
};
static inline Val VC(u128 c) { return Val { c, nullptr }; }
static Val VE(E e) { return e->isC() ? Val { e->val, nullptr } : Val { 0, e }; }
static E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory objects
enum ObjKind : u8 { OK_GLOBAL, OK_HEAP, OK_STACK };
struct Obj {
    int rc = 0;
    u64 base = 0;
    u32 size = 0;
    ObjKind kind = OK_GLOBAL;
    bool ro = false, ext = false;
    u64 allocAlign = 0;
    std::vector<u8> d;
    std::vector<E> s;
    H128 h;
    bool hv = false;
    std::string name;
    void hash() {
        h = H128();
        h.add(base); h.add(size);
        size_t i = 0;
        for (; i + 8 <= d.size(); i += 8) { u64 x; memcpy(&x, &d[i], 8); h.add(x); }
        u64 x = 0;
        if (i < d.size()) { memcpy(&x, &d[i], d.size() - i); h.add(x); }
        if (!s.empty()) for (size_t j = 0; j < s.size(); j++) if (s[j]) h.add((u64)j << 32 | s[j]->id);
        hv = true;
    }
};
struct Ref {
    Obj* p = nullptr;
    Ref() {}
    explicit Ref(Obj* o) : p(o) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    Obj* operator->() const { return p; }
    Obj* w() { // unshare for writing
        if (p->rc > 1) { Obj* n = new Obj(*p); n->rc = 0; *this = Ref(n); }
        p->hv = false;
        return p;
    }
};

// ---------------------------------------------------------------- decoded code
enum class Op : u8 { Bin, ICmp, Select, Cast, Gep, Load, Store, Alloca, Call, Invoke, Br, CondBr, Switch, Ret, Unreachable, Copy, LandingPad, Resume, Nop };
enum Intr : int {
    I_NONE = 0, I_NOP, I_MEMCPY, I_MEMSET, I_TRAP, I_LIFE_START, I_LIFE_END, I_TLADDR, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_CTLZ, I_CTTZ, I_CTPOP,
    I_BSWAP, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_USUBSAT, I_UADDSAT, I_FSHL, I_FSHR, I_TYPEID, I_OBJSIZE, I_EXPECT,
    I_SYM_BYTES, I_SYM_ASSUME, I_SYM_ASSERT, I_SYM_COVER, I_SYM_PARAM, I_SYM_BLOB, I_SYM_LOG, I_SYM_CONC, I_SYM_IGNORE, I_SYM_MALLOC, I_SYM_FREE, I_SYM_HEAPLIVE, I_SYM_ISSYM, I_SYM_DOMCHECK, I_SYM_RESET,
    I_CXA_ALLOC, I_CXA_THROW, I_CXA_BEGIN, I_CXA_END, I_CXA_RETHROW, I_CXA_FREE, I_TERMINATE, I_ABORT, I_GUARD_ACQ, I_GUARD_REL, I_ATEXIT, I_BADEXT
};
struct Edge { int pc; std::vector<std::pair<int, int>> moves; };
struct Leaf { u32 off; u16 w; u16 bytes; };
struct Func;
struct Inst {
    Op op; K bk = K::Const; u16 w = 0, w2 = 0;
    int dst = -1, nd = 0;
    int a = 0, b = 0, c = 0;
    int pred = 0;
    bool neg = false, swp = false, isPtr = false;
    u64 imm = 0;
    std::vector<std::pair<int, i64>> terms; // gep: (operand, scale) / copy: (dst,src)
    std::vector<u16> tw;                    // gep index widths
    std::vector<Leaf> leaves;
    std::vector<int> args;
    std::vector<Edge> edges; // br/condbr/switch/invoke
    std::vector<u128> cases;
    std::vector<u64> clauses; // landingpad: typeinfo addresses, 0 = catch-all
    bool cleanup = false, filter = false;
    Func* callee = nullptr;
    int intr = 0;
    int fp = 0; bool indirect = false;
    const Instruction* src = nullptr;
    std::vector<int> liveBefore, liveAfter;
};
struct Func {
    Function* f = nullptr;
    std::string name, nice;
    u64 addr = 0;
    bool decoded = false, lib = false;
    int nregs = 0, nargs = 0;
    std::vector<Inst> code;
    std::vector<Val> consts;
    std::vector<u8> covered;
    int id = 0, intr = 0;
    u64 calls = 0;
};
struct Frame {
    Func* fn;
    int pc;
    std::vector<Val> regs;
    u32 stackMark; // index into stackObjs
    u64 sp;
};
struct Con { E e; bool implied; };
struct ExcInfo { u64 obj, ti, dtor; int handlers; };
struct SummFork { E cond; };
struct SummAbort { };
using Ivals = std::vector<std::pair<u64, u64>>; // closed intervals of the summary variable
struct State {
    std::vector<Frame> fr;
    std::vector<Ref> stack, heap, glob;
    u64 sp = STACK_BASE;
    std::vector<Set256> dom;
    std::vector<u8> model;
    std::vector<Con> cons;
    Set256 multi;
    std::vector<ExcInfo> exc; // live exception objects
    std::vector<u64> caught;  // stack of caught exception objects
    u64 allocNo = 0;
    u64 steps = 0, forks = 0;
    std::vector<std::pair<u64, Val>> log;
    Ivals iv;
    u64 summStack = 0; // objects at or above this address belong to the summarised call
};
enum { R0 = 0, R1 = 1, R_FORK = 2, R_PRUNE = 3, R_END = 4 };
struct Viol { std::string kind, msg; };
struct Stop { };

struct VRec { std::string kind, msg, where; std::vector<u8> model; std::vector<std::string> trace; u64 count = 1; };

static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> mod;
    const DataLayout* dl = nullptr;
    std::map<const GlobalValue*, u64> gaddr;
    std::map<const Function*, Func*> funcs;
    std::vector<Func*> funcList;
    std::vector<Ref> constGlobals; // sorted by base; immutable or mutable (index shared)
    std::vector<Ref> globInit;     // mutable globals once the constructors have run
    std::map<u64, int> globIndex;  // base -> index in state.glob (mutable) or -1-constIdx
    std::vector<u64> gbases;
    std::vector<int> gidx;
    Solver sol;
    std::map<std::string, i64> params;
    std::map<std::string, std::string> blobs;

    // options
    u64 maxSteps = 20000000, maxPathSteps = 3000000;
    double maxTime = 600;
    bool dedup = true;
    int nSamples = 4;
    bool normalize = true;
    int maxViol = 8;

    // results
    u64 paths = 0, pruned = 0, forksN = 0, steps = 0, ignored = 0, asserts = 0, sigs = 0;
    std::map<std::string, u64> covers;
    std::vector<VRec> viols;
    std::map<std::string, int> violIdx;
    struct Sample { std::vector<u8> model; std::vector<std::pair<u64, u64>> log; };
    std::vector<Sample> samples;
    bool incomplete = false;
    std::string incompleteWhy;
    std::chrono::steady_clock::time_point t0;

    bool prof = false;
    std::map<std::string, u64> profForks, profQueries, profPrune;
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // ------------------------------------------------------------ loading
    void load(const std::string& path) {
        SMDiagnostic err;
        mod = parseIRFile(path, err, ctx);
        if (!mod) die("cannot load " + path);
        dl = &mod->getDataLayout();
        // A harness replaces a function of the C library by defining __wrap_<name>, like with ld --wrap.
        for (Function& f : *mod)
            if (f.isDeclaration())
                if (Function* w = mod->getFunction(("__wrap_" + f.getName()).str()); w && !w->isDeclaration()) f.replaceAllUsesWith(w);
        u64 fa = FUNC_BASE;
        for (Function& f : *mod) {
            Func* x = new Func;
            x->f = &f; x->name = f.getName().str(); x->addr = fa; x->id = funcList.size();
            fa += 16;
            gaddr[&f] = x->addr;
            funcs[&f] = x;
            funcList.push_back(x);
            if (f.isDeclaration()) x->intr = intrinsicId(x->name, &f);
            else { int i = intrinsicId(x->name, nullptr); if (i) x->intr = i; }
        }
        u64 ga = GLOBAL_BASE;
        for (GlobalVariable& g : mod->globals()) {
            u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
            ga = (ga + al - 1) / al * al;
            gaddr[&g] = ga;
            ga += std::max<u64>(1, dl->getTypeAllocSize(g.getValueType())) + 64;
        }
        for (GlobalAlias& a : mod->aliases()) {
            GlobalValue* t = cast<GlobalValue>(a.getAliasee()->stripPointerCasts());
            gaddr[&a] = gaddr.at(t);
        }
    }
    void initGlobals(State& s) {
        for (GlobalVariable& g : mod->globals()) {
            Obj* o = new Obj;
            o->base = gaddr[&g];
            o->size = dl->getTypeAllocSize(g.getValueType());
            o->d.assign(o->size, 0);
            o->ro = g.isConstant();
            o->name = g.getName().str();
            if (g.isDeclaration()) { o->ext = true; o->ro = true; }
            else writeConst(o, 0, g.getInitializer());
            o->hash();
            gbases.push_back(o->base);
            if (o->ro) { gidx.push_back(-1 - (int)constGlobals.size()); constGlobals.emplace_back(o); }
            else { gidx.push_back((int)s.glob.size()); s.glob.emplace_back(o); }
        }
    }
    void writeConst(Obj* o, u64 off, const Constant* c) {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto* cda = dyn_cast<ConstantDataSequential>(c)) {
            StringRef raw = cda->getRawDataValues();
            memcpy(&o->d[off], raw.data(), raw.size());
            return;
        }
        if (auto* ca = dyn_cast<ConstantArray>(c)) {
            u64 es = dl->getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i));
            return;
        }
        if (auto* cs = dyn_cast<ConstantStruct>(c)) {
            const StructLayout* sl = dl->getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
            return;
        }
        u128 v = constScalar(c);
        u64 n = dl->getTypeStoreSize(t);
        for (u64 i = 0; i < n; i++) o->d[off + i] = (u8)(v >> (8 * i));
    }
    u128 constScalar(const Constant* c) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            const APInt& a = ci->getValue();
            u128 v = a.getRawData()[0];
            if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
            if (a.getBitWidth() > 128) die("wide const");
            return v;
        }
        if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
        if (auto* gv = dyn_cast<GlobalValue>(c)) return gaddr.at(gv);
        if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*dl, off)) die("const gep");
                return (u64)(constScalar(ce->getOperand(0)) + off.getZExtValue());
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constScalar(ce->getOperand(0));
            case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
            case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
            case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskw(ce->getType()->getIntegerBitWidth());
            case Instruction::ICmp: {
                u128 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
                switch (ce->getPredicate()) {
                case CmpInst::ICMP_EQ: return a == b;
                case CmpInst::ICMP_NE: return a != b;
                case CmpInst::ICMP_ULT: return a < b;
                case CmpInst::ICMP_UGT: return a > b;
                default: break;
                }
                break;
            }
            default: break;
            }
        }
        std::string str; raw_string_ostream os(str); c->print(os);
        die("unsupported constant: " + str);
    }

    int intrinsicId(const std::string& n, Function* f) {
        static const std::map<std::string, int> m {
            { "sym_bytes", I_SYM_BYTES }, { "sym_assume", I_SYM_ASSUME }, { "sym_assert", I_SYM_ASSERT }, { "sym_cover", I_SYM_COVER },
            { "sym_param", I_SYM_PARAM }, { "sym_blob", I_SYM_BLOB }, { "sym_log", I_SYM_LOG }, { "sym_concretize", I_SYM_CONC }, { "sym_ignore", I_SYM_IGNORE },
            { "sym_malloc", I_SYM_MALLOC }, { "sym_free", I_SYM_FREE }, { "sym_heap_live", I_SYM_HEAPLIVE }, { "sym_is_symbolic", I_SYM_ISSYM }, { "sym_reset_globals", I_SYM_RESET },
            { "__cxa_allocate_exception", I_CXA_ALLOC }, { "__cxa_throw", I_CXA_THROW }, { "__cxa_begin_catch", I_CXA_BEGIN },
            { "__cxa_end_catch", I_CXA_END }, { "__cxa_rethrow", I_CXA_RETHROW }, { "__cxa_free_exception", I_CXA_FREE },
            { "_ZSt9terminatev", I_TERMINATE }, { "abort", I_ABORT }, { "exit", I_ABORT }, { "__cxa_guard_acquire", I_GUARD_ACQ },
            { "__cxa_guard_release", I_GUARD_REL }, { "__cxa_atexit", I_ATEXIT }, { "__cxa_pure_virtual", I_ABORT },
            { "_ZSt21ios_base_library_initv", I_NOP },
        };
        auto it = m.find(n);
        if (it != m.end()) return it->second;
        if (!f) return 0;
        if (f->isIntrinsic()) {
            switch (f->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return I_MEMCPY;
            case Intrinsic::memset: case Intrinsic::memset_inline: return I_MEMSET;
            case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return I_TRAP;
            case Intrinsic::lifetime_start: return I_LIFE_START;
            case Intrinsic::lifetime_end: return I_LIFE_END;
            case Intrinsic::threadlocal_address: return I_TLADDR;
            case Intrinsic::umin: return I_UMIN;
            case Intrinsic::umax: return I_UMAX;
            case Intrinsic::smin: return I_SMIN;
            case Intrinsic::smax: return I_SMAX;
            case Intrinsic::abs: return I_ABS;
            case Intrinsic::ctlz: return I_CTLZ;
            case Intrinsic::cttz: return I_CTTZ;
            case Intrinsic::ctpop: return I_CTPOP;
            case Intrinsic::bswap: return I_BSWAP;
            case Intrinsic::uadd_with_overflow: return I_UADDO;
            case Intrinsic::usub_with_overflow: return I_USUBO;
            case Intrinsic::umul_with_overflow: return I_UMULO;
            case Intrinsic::sadd_with_overflow: return I_SADDO;
            case Intrinsic::ssub_with_overflow: return I_SSUBO;
            case Intrinsic::smul_with_overflow: return I_SMULO;
            case Intrinsic::usub_sat: return I_USUBSAT;
            case Intrinsic::uadd_sat: return I_UADDSAT;
            case Intrinsic::fshl: return I_FSHL;
            case Intrinsic::fshr: return I_FSHR;
            case Intrinsic::eh_typeid_for: return I_TYPEID;
            case Intrinsic::expect: return I_EXPECT;
            case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
            case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::invariant_start: return I_NOP;
            default: break;
            }
        }
        return I_BADEXT;
    }

    // ------------------------------------------------------------ decoding
    void flatten(Type* t, u64 off, std::vector<Leaf>& out) {
        if (auto* st = dyn_cast<StructType>(t)) {
            const StructLayout* sl = dl->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            u64 es = dl->getTypeAllocSize(at->getElementType());
            for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
            return;
        }
        if (t->isVectorTy()) die("vector type");
        unsigned w = t->isPointerTy() ? 64 : (unsigned)dl->getTypeSizeInBits(t);
        out.push_back({ (u32)off, (u16)w, (u16)dl->getTypeStoreSize(t) });
    }
    unsigned nLeaves(Type* t) { std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }

    struct Dec {
        Func* F;
        std::map<const Value*, int> reg;
        std::map<const Value*, std::vector<int>> cst;
    };
    int addConst(Func* F, u128 v) { F->consts.push_back(VC(v)); return -(int)F->consts.size(); }
    void flatConst(const Constant* c, std::vector<u128>& out) {
        Type* t = c->getType();
        if (t->isStructTy() || t->isArrayTy()) {
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) {
                Constant* e = c->getAggregateElement(i);
                flatConst(e, out);
            }
            return;
        }
        out.push_back(constScalar(c));
    }
    int operand(Dec& d, const Value* v, unsigned leaf = 0) {
        auto it = d.reg.find(v);
        if (it != d.reg.end()) return it->second + leaf;
        auto ic = d.cst.find(v);
        if (ic != d.cst.end()) return ic->second[leaf];
        auto* c = dyn_cast<Constant>(v);
        if (!c) {
            std::string str; raw_string_ostream os(str); v->print(os);
            die("operand? " + str);
        }
        std::vector<u128> vals;
        flatConst(c, vals);
        std::vector<int> idx;
        for (u128 x : vals) idx.push_back(addConst(d.F, x));
        d.cst[v] = idx;
        return idx[leaf];
    }
    static unsigned scalarW(Type* t) { return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); }

    void decode(Func* F) {
        if (F->decoded) return;
        F->decoded = true;
        Function& f = *F->f;
        if (f.isDeclaration()) return;
        Dec d { F, {}, {} };
        int nr = 0;
        for (Argument& a : f.args()) { d.reg[&a] = nr; nr += nLeaves(a.getType()); }
        F->nargs = nr;
        std::map<const BasicBlock*, int> start;
        int pc = 0;
        for (BasicBlock& b : f) {
            start[&b] = pc;
            for (Instruction& i : b) {
                if (!i.getType()->isVoidTy()) { d.reg[&i] = nr; nr += nLeaves(i.getType()); }
                if (isa<PHINode>(i)) continue;
                pc++;
            }
        }
        F->nregs = nr;
        F->code.reserve(pc);
        auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
            Edge e;
            e.pc = start[to];
            for (const PHINode& p : to->phis()) {
                const Value* v = p.getIncomingValueForBlock(from);
                unsigned n = nLeaves(p.getType());
                for (unsigned k = 0; k < n; k++) e.moves.push_back({ d.reg[&p] + (int)k, operand(d, v, k) });
            }
            return e;
        };
        for (BasicBlock& b : f) {
            for (Instruction& i : b) {
                if (isa<PHINode>(i)) continue;
                Inst x;
                x.src = &i;
                if (!i.getType()->isVoidTy()) { x.dst = d.reg[&i]; x.nd = nLeaves(i.getType()); }
                decodeInst(d, i, x, mkEdge, b);
                F->code.push_back(std::move(x));
            }
        }
        F->covered.assign(F->code.size(), 0);
        liveness(F);
    }
    template <class ME> void decodeInst(Dec& d, Instruction& i, Inst& x, ME& mkEdge, BasicBlock& bb) {
        auto bin = [&](K k) { x.op = Op::Bin; x.bk = k; x.w = scalarW(i.getType()); x.a = operand(d, i.getOperand(0)); x.b = operand(d, i.getOperand(1)); };
        switch (i.getOpcode()) {
        case Instruction::Add: bin(K::Add); break;
        case Instruction::Sub: bin(K::Sub); break;
        case Instruction::Mul: bin(K::Mul); break;
        case Instruction::UDiv: bin(K::UDiv); break;
        case Instruction::SDiv: bin(K::SDiv); break;
        case Instruction::URem: bin(K::URem); break;
        case Instruction::SRem: bin(K::SRem); break;
        case Instruction::And: bin(K::And); break;
        case Instruction::Or: bin(K::Or); break;
        case Instruction::Xor: bin(K::Xor); break;
        case Instruction::Shl: bin(K::Shl); break;
        case Instruction::LShr: bin(K::LShr); break;
        case Instruction::AShr: bin(K::AShr); break;
        case Instruction::ICmp: {
            auto* c = cast<ICmpInst>(&i);
            x.op = Op::ICmp; x.w = scalarW(c->getOperand(0)->getType());
            x.a = operand(d, c->getOperand(0)); x.b = operand(d, c->getOperand(1));
            switch (c->getPredicate()) {
            case CmpInst::ICMP_EQ: x.bk = K::Eq; break;
            case CmpInst::ICMP_NE: x.bk = K::Eq; x.neg = true; break;
            case CmpInst::ICMP_ULT: x.bk = K::Ult; break;
            case CmpInst::ICMP_ULE: x.bk = K::Ule; break;
            case CmpInst::ICMP_UGT: x.bk = K::Ult; x.swp = true; break;
            case CmpInst::ICMP_UGE: x.bk = K::Ule; x.swp = true; break;
            case CmpInst::ICMP_SLT: x.bk = K::Slt; break;
            case CmpInst::ICMP_SLE: x.bk = K::Sle; break;
            case CmpInst::ICMP_SGT: x.bk = K::Slt; x.swp = true; break;
            case CmpInst::ICMP_SGE: x.bk = K::Sle; x.swp = true; break;
            default: die("icmp");
            }
            if (x.swp) std::swap(x.a, x.b);
            break;
        }
        case Instruction::Select: {
            x.op = Op::Select;
            std::vector<Leaf> l; flatten(i.getType(), 0, l);
            x.leaves = l;
            x.a = operand(d, i.getOperand(0));
            x.isPtr = i.getType()->isPointerTy() || l.size() > 1;
            for (unsigned k = 0; k < l.size(); k++) { x.args.push_back(operand(d, i.getOperand(1), k)); x.args.push_back(operand(d, i.getOperand(2), k)); }
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            x.op = Op::Cast; x.a = operand(d, i.getOperand(0));
            x.w2 = scalarW(i.getOperand(0)->getType()); x.w = scalarW(i.getType());
            x.bk = i.getOpcode() == Instruction::SExt ? K::SExt : x.w >= x.w2 ? K::ZExt : K::Extract;
            break;
        case Instruction::Freeze: {
            x.op = Op::Copy;
            for (int k = 0; k < x.nd; k++) x.terms.push_back({ x.dst + k, operand(d, i.getOperand(0), k) });
            break;
        }
        case Instruction::ExtractValue: {
            auto* ev = cast<ExtractValueInst>(&i);
            unsigned off = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
            x.op = Op::Copy;
            for (int k = 0; k < x.nd; k++) x.terms.push_back({ x.dst + k, operand(d, ev->getAggregateOperand(), off + k) });
            break;
        }
        case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(&i);
            unsigned off = leafIndex(iv->getType(), iv->getIndices());
            unsigned n = nLeaves(iv->getInsertedValueOperand()->getType());
            x.op = Op::Copy;
            for (int k = 0; k < x.nd; k++) {
                if ((unsigned)k >= off && (unsigned)k < off + n) x.terms.push_back({ x.dst + k, operand(d, iv->getInsertedValueOperand(), k - off) });
                else x.terms.push_back({ x.dst + k, operand(d, iv->getAggregateOperand(), k) });
            }
            break;
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(&i);
            x.op = Op::Gep; x.a = operand(d, g->getPointerOperand());
            i64 off = 0;
            for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                Value* idx = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) { off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                i64 sz = gi.getSequentialElementStride(*dl);
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * sz; continue; }
                x.terms.push_back({ operand(d, idx), sz });
                x.tw.push_back(scalarW(idx->getType()));
            }
            x.imm = (u64)off;
            break;
        }
        case Instruction::Load: x.op = Op::Load; x.a = operand(d, i.getOperand(0)); flatten(i.getType(), 0, x.leaves); break;
        case Instruction::Store: {
            x.op = Op::Store;
            Type* t = i.getOperand(0)->getType();
            flatten(t, 0, x.leaves);
            for (unsigned k = 0; k < x.leaves.size(); k++) x.args.push_back(operand(d, i.getOperand(0), k));
            x.a = operand(d, i.getOperand(1));
            break;
        }
        case Instruction::Alloca: {
            auto* a = cast<AllocaInst>(&i);
            x.op = Op::Alloca;
            auto* n = dyn_cast<ConstantInt>(a->getArraySize());
            if (!n) die("dynamic alloca");
            x.imm = dl->getTypeAllocSize(a->getAllocatedType()) * n->getZExtValue();
            x.w = a->getAlign().value();
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            auto* cb = cast<CallBase>(&i);
            x.op = isa<InvokeInst>(i) ? Op::Invoke : Op::Call;
            Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
            if (auto* fn = dyn_cast<Function>(cv)) { x.callee = funcs.at(fn); x.intr = x.callee->intr; }
            else { x.indirect = true; x.fp = operand(d, cb->getCalledOperand()); }
            if (x.intr == I_NOP) { x.op = Op::Nop; if (x.dst >= 0) die("nop intr with result"); break; }
            for (unsigned k = 0; k < cb->arg_size(); k++) {
                Value* a = cb->getArgOperand(k);
                if (a->getType()->isMetadataTy()) continue;
                unsigned n = nLeaves(a->getType());
                for (unsigned q = 0; q < n; q++) x.args.push_back(operand(d, a, q));
            }
            if (!i.getType()->isVoidTy()) { flatten(i.getType(), 0, x.leaves); x.w = x.leaves.empty() ? 0 : x.leaves[0].w; }
            if (cb->arg_size()) { Type* t = cb->getArgOperand(0)->getType(); if (t->isIntegerTy() || t->isPointerTy()) x.w2 = scalarW(t); }
            if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.edges.push_back(mkEdge(&bb, iv->getNormalDest())); x.edges.push_back(mkEdge(&bb, iv->getUnwindDest())); }
            break;
        }
        case Instruction::Br: {
            auto* b = cast<BranchInst>(&i);
            if (b->isUnconditional()) { x.op = Op::Br; x.edges.push_back(mkEdge(&bb, b->getSuccessor(0))); }
            else {
                x.op = Op::CondBr; x.a = operand(d, b->getCondition());
                x.edges.push_back(mkEdge(&bb, b->getSuccessor(0)));
                x.edges.push_back(mkEdge(&bb, b->getSuccessor(1)));
            }
            break;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(&i);
            x.op = Op::Switch; x.a = operand(d, sw->getCondition()); x.w = scalarW(sw->getCondition()->getType());
            x.edges.push_back(mkEdge(&bb, sw->getDefaultDest()));
            for (auto& c : sw->cases()) {
                x.cases.push_back(constScalar(c.getCaseValue()));
                x.edges.push_back(mkEdge(&bb, c.getCaseSuccessor()));
            }
            break;
        }
        case Instruction::Ret:
            x.op = Op::Ret;
            if (i.getNumOperands()) { unsigned n = nLeaves(i.getOperand(0)->getType()); for (unsigned k = 0; k < n; k++) x.args.push_back(operand(d, i.getOperand(0), k)); }
            break;
        case Instruction::Unreachable: x.op = Op::Unreachable; break;
        case Instruction::LandingPad: {
            auto* lp = cast<LandingPadInst>(&i);
            x.op = Op::LandingPad; x.cleanup = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                if (lp->isFilter(k)) { x.filter = true; continue; }
                x.clauses.push_back((u64)constScalar(lp->getClause(k)));
            }
            break;
        }
        case Instruction::Resume:
            x.op = Op::Resume;
            x.args = { operand(d, i.getOperand(0), 0), operand(d, i.getOperand(0), 1) };
            break;
        default: die(std::string("unsupported instruction ") + i.getOpcodeName());
        }
    }
    unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) {
        unsigned r = 0;
        for (unsigned i : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) r += nLeaves(st->getElementType(k));
                t = st->getElementType(i);
            } else {
                t = cast<ArrayType>(t)->getElementType();
                r += i * nLeaves(t);
            }
        }
        return r;
    }
    void uses(const Inst& x, std::vector<int>& u) {
        auto add = [&](int r) { if (r >= 0) u.push_back(r); };
        switch (x.op) {
        case Op::Bin: case Op::ICmp: add(x.a); add(x.b); break;
        case Op::Select: case Op::Store: add(x.a); for (int r : x.args) add(r); break;
        case Op::Cast: case Op::Load: case Op::CondBr: case Op::Switch: add(x.a); break;
        case Op::Gep: add(x.a); for (auto& t : x.terms) add(t.first); break;
        case Op::Copy: for (auto& t : x.terms) add((int)t.second); break;
        case Op::Call: case Op::Invoke: if (x.indirect) add(x.fp); for (int r : x.args) add(r); break;
        case Op::Ret: case Op::Resume: for (int r : x.args) add(r); break;
        default: break;
        }
    }
    void liveness(Func* F) {
        int n = F->code.size(), W = (F->nregs + 63) / 64;
        // instruction-level backward dataflow with worklist
        std::vector<std::vector<u64>> in(n, std::vector<u64>(W, 0));
        bool ch = true;
        std::vector<u64> t(W), e(W);
        auto set = [](std::vector<u64>& b, int i) { b[i >> 6] |= 1ull << (i & 63); };
        auto clr = [](std::vector<u64>& b, int i) { b[i >> 6] &= ~(1ull << (i & 63)); };
        auto edgeLive = [&](const Edge& ed, std::vector<u64>& out) {
            e = in[ed.pc];
            for (auto& m : ed.moves) clr(e, m.first);
            for (auto& m : ed.moves) if (m.second >= 0) set(e, m.second);
            for (int k = 0; k < W; k++) out[k] |= e[k];
        };
        std::vector<int> us;
        auto outSet = [&](int pc, std::vector<u64>& o, bool normalOnly) {
            const Inst& x = F->code[pc];
            std::fill(o.begin(), o.end(), 0);
            bool term = x.op == Op::Br || x.op == Op::CondBr || x.op == Op::Switch || x.op == Op::Invoke || x.op == Op::Ret || x.op == Op::Unreachable || x.op == Op::Resume;
            (void)normalOnly;
            if (term) for (auto& ed : x.edges) edgeLive(ed, o);
            else if (pc + 1 < n) o = in[pc + 1];
        };
        while (ch) {
            ch = false;
            for (int pc = n - 1; pc >= 0; pc--) {
                const Inst& x = F->code[pc];
                outSet(pc, t, false);
                for (int k = 0; k < x.nd; k++) clr(t, x.dst + k);
                us.clear();
                uses(x, us);
                for (int u : us) set(t, u);
                if (t != in[pc]) { in[pc] = t; ch = true; }
            }
        }
        for (int pc = 0; pc < n; pc++) {
            Inst& x = F->code[pc];
            for (int r = 0; r < F->nregs; r++) if (in[pc][r >> 6] >> (r & 63) & 1) x.liveBefore.push_back(r);
            if (x.op == Op::Call || x.op == Op::Invoke) {
                outSet(pc, t, true);
                for (int k = 0; k < x.nd; k++) clr(t, x.dst + k);
                for (int r = 0; r < F->nregs; r++) if (t[r >> 6] >> (r & 63) & 1) x.liveAfter.push_back(r);
            }
        }
    }

    // ------------------------------------------------------------ DFS bookkeeping
    struct Entry { Set256 R; std::vector<std::pair<u8, Set256>> dom; std::vector<u32> cons; };
    struct Node { H128 sig; bool rec = false; std::vector<Set256> dom; std::vector<Con> cons; Set256 multi; Set256 R; std::vector<State*> kids; };
    std::unordered_map<H128, std::vector<Entry>, H128Hash> memo;
    std::vector<Node> nodes;
    std::vector<State*> forkOut;
    void addR(const Set256& s) { nodes.back().R |= s; }
    void addR1(int i) { nodes.back().R.add(i); }

    H128 signature(State& s) {
        sigs++;
        H128 h;
        h.add(s.fr.size());
        for (size_t k = 0; k < s.fr.size(); k++) {
            Frame& f = s.fr[k];
            h.add((u64)f.fn->id << 32 | f.pc);
            const Inst& x = f.fn->code[f.pc];
            const std::vector<int>& live = k + 1 == s.fr.size() ? x.liveBefore : x.liveAfter;
            for (int r : live) {
                const Val& v = f.regs[r];
                if (v.e) h.add((u64)v.e->id | 1ull << 63);
                else { h.add((u64)v.c); if (v.c >> 64) h.add((u64)(v.c >> 64)); }
            }
        }
        u64 sa = 0, sb = 0;
        auto objs = [&](std::vector<Ref>& v) {
            for (Ref& r : v) {
                if (!r->hv) r->hash();
                sa += mix64(r->h.a); sb += mix64(r->h.b + 77);
            }
        };
        objs(s.stack); objs(s.heap); objs(s.glob);
        h.add(sa); h.add(sb);
        h.add(s.dom.size());
        h.add(s.allocNo);
        for (auto& e : s.exc) { h.add(e.obj); h.add(e.ti); h.add(e.handlers); }
        for (u64 c : s.caught) h.add(c);
        return h;
    }
    static Set256 closeR(Set256 R, const std::vector<Con>& cons) {
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto& c : cons) if (!c.implied && c.e->sup.intersects(R) && !c.e->sup.subset_of(R)) { R |= c.e->sup; ch = true; }
        }
        return R;
    }
    bool tryPrune(State& s, const H128& sig, Set256& Rout) {
        auto it = memo.find(sig);
        if (it == memo.end()) return false;
        for (Entry& e : it->second) {
            bool ok = true;
            for (auto& [i, d] : e.dom) if (!s.dom[i].subset_of(d)) { ok = false; break; }
            if (!ok) continue;
            for (u32 c : e.cons) {
                bool f = false;
                for (auto& k : s.cons) if (k.e->id == c) { f = true; break; }
                if (!f) { ok = false; break; }
            }
            if (!ok) continue;
            Rout = e.R;
            return true;
        }
        return false;
    }
    // Called right before a fork. Returns true if the state is subsumed.
    bool onFork(State& s) {
        if (elapsed() > maxTime) { incomplete = true; incompleteWhy = "time budget"; throw Stop(); }
        forksN++;
        s.forks++;
        if (prof) profForks[s.fr.back().fn->name + ":" + std::to_string(s.fr.back().pc)]++;
        Node n;
        if (dedup) {
            n.sig = signature(s);
            Set256 R;
            if (tryPrune(s, n.sig, R)) { addR(R); pruned++; return true; }
            n.rec = true;
            n.dom = s.dom;
            n.cons = s.cons;
        }
        nodes.push_back(std::move(n));
        return false;
    }
    void finishNode() {
        Node n = std::move(nodes.back());
        nodes.pop_back();
        if (n.rec) {
            Entry e;
            e.R = closeR(n.R, n.cons);
            e.R.each([&](unsigned i) { if (i < n.dom.size()) e.dom.push_back({ (u8)i, n.dom[i] }); });
            for (auto& c : n.cons) if (!c.implied && c.e->sup.intersects(e.R)) e.cons.push_back(c.e->id);
            auto& v = memo[n.sig];
            if (v.size() < 64) v.push_back(std::move(e));
            else v[(size_t)(forksN % 64)] = std::move(e);
            nodes.back().R |= e.R.empty() ? n.R : n.R;
        }
        nodes.back().R |= n.R;
    }

    // ------------------------------------------------------------ deciding conditions
    int eval3(State& s, E e) {
        if (e->isC()) return e->val != 0;
        if (e->undef) throw Viol { "uninit", "decision depends on uninitialised memory" };
        if (e->nsup == 1) {
            addR1(e->sym1);
            const Set256& t = truthOf(e);
            sol.noteTable(e);
            const Set256& d = s.dom[e->sym1];
            if (!d.intersects(t)) return 0;
            if (d.subset_of(t)) return 1;
            return 2;
        }
        switch (e->k) {
        case K::And: { int a = eval3(s, e->a); if (a == 0) return 0; int b = eval3(s, e->b); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : 2; }
        case K::Or: { int a = eval3(s, e->a); if (a == 1) return 1; int b = eval3(s, e->b); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : 2; }
        case K::Xor: { int a = eval3(s, e->a); if (a == 2) return 2; int b = eval3(s, e->b); if (b == 2) return 2; return a ^ b; }
        case K::Ite: { int c = eval3(s, e->a); if (c == 1) return eval3(s, e->b); if (c == 0) return eval3(s, e->c); return 2; }
        default: break;
        }
        addR(e->sup);
        for (auto& c : s.cons) {
            if (c.e == e) return 1;
            if (c.e->k == K::Xor && c.e->a == e) return 0;
        }
        return 2;
    }
    // find the boolean sub-expression to split on
    E pickAtom(State& s, E e) {
        if (e->nsup == 1) return e;
        switch (e->k) {
        case K::And: case K::Or: case K::Xor:
            if (eval3(s, e->a) == 2) return pickAtom(s, e->a);
            return pickAtom(s, e->b);
        case K::Ite: {
            int c = eval3(s, e->a);
            if (c == 2) return pickAtom(s, e->a);
            return pickAtom(s, c ? e->b : e->c);
        }
        default: break;
        }
        if (E c = findIteCond(s, e, 0)) return pickAtom(s, c);
        return e;
    }
    E findIteCond(State& s, E e, int depth) {
        if (!e || e->nsup < 2 || depth > 12) return nullptr;
        if (e->k == K::Ite) {
            if (eval3(s, e->a) == 2 && e->a->nsup == 1) return e->a;
        }
        for (E x : { e->a, e->b, e->c }) if (E r = findIteCond(s, x, depth + 1)) return r;
        return nullptr;
    }
    int solve(State& s, E extra, std::vector<u8>* model) {
        std::vector<E> cs;
        if (extra) cs.push_back(extra);
        Set256 sup = extra ? extra->sup : Set256();
        std::vector<char> used(s.cons.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < s.cons.size(); i++) {
                if (used[i] || s.cons[i].implied || !s.cons[i].e->sup.intersects(sup)) continue;
                used[i] = 1; ch = true;
                sup |= s.cons[i].e->sup;
                cs.push_back(s.cons[i].e);
            }
        }
        u64 q0 = sol.st.queries;
        int r = sol.check(cs, s.dom, model);
        if (prof && sol.st.queries > q0) { profQueries[s.fr.back().fn->name + ":" + std::to_string(s.fr.back().pc)]++; if (sol.st.queries % 500 == 0) { fprintf(stderr, "Q %s\n", extra ? exprStr(extra, 7).c_str() : ""); } }
        if (r < 0) { incomplete = true; incompleteWhy = "solver unknown"; throw Stop(); }
        return r;
    }
    static State* clone(State& s) { return new State(s); }

    void refineDom(State& s, int i, const Set256& nd) {
        s.dom[i] = nd;
        if (!normalize) return;
        // replace values that became constant
        auto constUnder = [&](E e, u128& out) -> bool {
            if (e->nsup != 1 || e->sym1 != i || e->w > 64 || e->undef) return false;
            const Table* t = tableOf(e);
            int f = nd.first();
            u64 v = t->v[f];
            bool ok = true;
            nd.each([&](unsigned k) { if (t->v[k] != v) ok = false; });
            if (ok) { out = v; if (e->k != K::Sym) sol.noteTable(e); }
            return ok;
        };
        for (Frame& f : s.fr)
            for (Val& v : f.regs)
                if (v.e && v.e->nsup == 1 && v.e->sym1 == i) { u128 o; if (constUnder(v.e, o)) v = VC(o); }
        auto objs = [&](std::vector<Ref>& vec) {
            for (Ref& r : vec) {
                if (r->s.empty() || r->ro) continue;
                for (size_t k = 0; k < r->s.size(); k++) {
                    E e = r->s[k];
                    if (!e || e->k == K::Sym || e->k == K::Undef || e->nsup != 1 || e->sym1 != i) continue;
                    u128 o;
                    if (constUnder(e, o)) { Obj* w = r.w(); w->s[k] = nullptr; w->d[k] = (u8)o; }
                }
            }
        };
        objs(s.stack); objs(s.heap); objs(s.glob);
    }
    void addCon(State& s, E e, bool implied) {
        s.cons.push_back({ e, implied });
        if (!implied) s.multi |= e->sup;
    }
    // After refining dom of i, make sure the state's model is still a model.
    void fixModel(State& s, int i) {
        if (s.dom[i].has(s.model[i])) return;
        if (!s.multi.has(i)) { s.model[i] = s.dom[i].first(); return; }
        die("fixModel on constrained byte");
    }
    // decide a boolean; may fork. Returns 0/1/R_FORK/R_PRUNE
    // ------------------------------------------------------------ function summaries
    // A side-effect-free predicate applied to a multi-byte value is executed once on a placeholder;
    // its decision tree, as one boolean expression, then stands for the call.
    bool inSumm = false;
    size_t summBase = 0;
    u64 summLeaves = 0, summSteps = 0, summCount = 0;
    std::map<std::pair<Func*, u64>, E> summaries; // key: function, hash of concrete args; null = not summarisable
    static Ivals isect(const Ivals& a, const Ivals& b) {
        Ivals r;
        for (auto& x : a) for (auto& y : b) { u64 lo = std::max(x.first, y.first), hi = std::min(x.second, y.second); if (lo <= hi) r.push_back({ lo, hi }); }
        return r;
    }
    static bool ivalsOf(E e, bool val, Ivals& out) { // values of Var making e == val; e compares Var with a constant
        if (e->k == K::Xor && e->b->isC()) return ivalsOf(e->a, !val, out);
        if (e->k == K::And || e->k == K::Or) {
            Ivals a, b;
            if (!ivalsOf(e->a, val, a) || !ivalsOf(e->b, val, b)) return false;
            if ((e->k == K::And) == val) out = isect(a, b);
            else { out = a; for (auto& x : b) for (auto& y : isect({ x }, compl_(a))) out.push_back(y); }
            return true;
        }
        if ((e->k != K::Ult && e->k != K::Eq) || e->a->k != K::Var || !e->b->isC()) return false;
        u64 m = (u64)maskw(e->a->w), c = (u64)e->b->val;
        Ivals t;
        if (e->k == K::Ult) { if (c) t.push_back({ 0, c - 1 }); }
        else t.push_back({ c, c });
        out = val ? t : compl_(t);
        for (auto& x : out) x.second = std::min(x.second, m);
        return true;
    }
    static Ivals compl_(Ivals a) {
        std::sort(a.begin(), a.end());
        Ivals r; u64 at = 0;
        for (auto& x : a) { if (x.first > at) r.push_back({ at, x.first - 1 }); at = x.second + 1; }
        if (at <= 0xffffffffull) r.push_back({ at, 0xffffffffull });
        return r;
    }
    int decideSumm(State& s, E cond) {
        if (cond->isC()) return cond->val != 0;
        Ivals t;
        if (ivalsOf(cond, true, t)) {
            Ivals x = isect(s.iv, t);
            if (x.empty()) return 0;
            Ivals f; ivalsOf(cond, false, f);
            if (isect(s.iv, f).empty()) return 1;
        }
        for (auto& c : s.cons) {
            if (c.e == cond) return 1;
            if (c.e->k == K::Xor && c.e->a == cond && c.e->b->isC()) return 0;
            if (cond->k == K::Xor && cond->b->isC() && cond->a == c.e) return 0;
        }
        throw SummFork { cond };
    }
    E summRun(State* st) {
        std::unique_ptr<State> s(st);
        if (++summLeaves > 20000) throw SummAbort();
        for (;;) {
            if (++summSteps > 3000000) throw SummAbort();
            Frame& f = s->fr.back();
            Inst& x = f.fn->code[f.pc];
            if (x.op == Op::Ret && s->fr.size() == summBase + 1) {
                f.fn->covered[f.pc] = 1;
                Val v = get(f, x.args[0]);
                return toE(v, 1);
            }
            try {
                int r = step(*s);
                if (r != R0) throw SummAbort();
            } catch (SummFork& sf) {
                State* b = new State(*s);
                State* a = s.release();
                Ivals t;
                if (ivalsOf(sf.cond, true, t)) { a->iv = isect(a->iv, t); Ivals u; ivalsOf(sf.cond, false, u); b->iv = isect(b->iv, u); }
                a->cons.push_back({ sf.cond, true });
                b->cons.push_back({ mkNot(sf.cond), true });
                std::unique_ptr<State> bh(b);
                E ea = summRun(a);
                E eb = summRun(bh.release());
                return mkIte(sf.cond, ea, eb);
            }
        }
    }
    // Returns true if the call was replaced by its summary.
    bool trySummary(State& s, Frame& f, Inst& x, Func* callee, const SmallVectorImpl<Val>& args) {
        if (inSumm || callee->f->getReturnType()->isVoidTy() || !callee->f->getReturnType()->isIntegerTy(1)) return false;
        E arg = nullptr; int ai = -1;
        H128 h;
        std::vector<unsigned> ws;
        unsigned li = 0;
        for (Argument& a : callee->f->args()) {
            std::vector<Leaf> l; flatten(a.getType(), 0, l);
            for (auto& q : l) ws.push_back(q.w);
        }
        (void)li;
        for (size_t k = 0; k < args.size(); k++) {
            if (args[k].e) {
                if (arg || ws[k] != 32 || args[k].e->nsup < 2 || args[k].e->undef) return false;
                arg = args[k].e; ai = k;
            } else if (ws[k] == 64) continue; // (this) pointer: only usable through memory, which is checked
            else h.add((u64)args[k].c);
            h.add(k);
        }
        if (!arg) return false;
        auto key = std::make_pair(callee, h.a);
        auto it = summaries.find(key);
        if (it == summaries.end()) {
            E res = nullptr;
            State* st = new State(s);
            summLeaves = summSteps = 0;
            inSumm = true;
            summBase = st->fr.size();
            st->iv = { { 0, 0xffffffffull } };
            st->cons.clear();
            st->summStack = st->sp;
            bool own = true;
            try {
                pushFrame(*st, callee);
                Frame& n = st->fr.back();
                for (int k = 0; k < callee->nargs; k++) n.regs[k] = args[k];
                n.regs[ai] = Val { 0, mkVar(32) };
                own = false;
                res = summRun(st);
            } catch (SummAbort&) { res = nullptr; }
            catch (Viol&) { res = nullptr; }
            if (own) delete st;
            inSumm = false;
            it = summaries.emplace(key, res).first;
            if (res) summCount++;
        }
        if (!it->second) return false;
        E r = it->second;
        E v = substVar(r, arg);
        callee->calls++;
        f.regs[x.dst] = VE(mkOpaque(v));
        advance(f, x);
        return true;
    }

    int decide(State& s, E cond) {
        if (inSumm) return decideSumm(s, cond);
        for (;;) {
            int r = eval3(s, cond);
            if (r != 2) return r;
            E atom = pickAtom(s, cond);
            if (atom->nsup == 1) {
                int i = atom->sym1;
                const Set256& T = truthOf(atom);
                Set256 d1 = s.dom[i] & T, d0 = s.dom[i] & ~T;
                std::vector<std::pair<Set256, std::vector<u8>>> parts;
                if (!splitDom(s, i, { d1, d0 }, parts)) { continue; }
                return forkDom(s, i, parts);
            }
            bool mv = evalModel(atom, s.model) != 0;
            E other = mv ? mkNot(atom) : atom, same = mv ? atom : mkNot(atom);
            std::vector<u8> m2 = s.model;
            int sat = solve(s, other, &m2);
            if (!sat) { addCon(s, same, true); continue; }
            if (onFork(s)) return R_PRUNE;
            addR(atom->sup);
            State* c = clone(s);
            addCon(s, same, false);
            addCon(*c, other, false);
            c->model = m2;
            nodes.back().kids.push_back(c);
            return R_FORK;
        }
    }
    // Partition domain of byte i; keep feasible parts (with models). If only one is feasible the
    // domain is refined in place and false is returned.
    bool splitDom(State& s, int i, const std::vector<Set256>& in, std::vector<std::pair<Set256, std::vector<u8>>>& parts) {
        for (const Set256& d : in) {
            if (d.empty()) continue;
            std::vector<u8> m = s.model;
            if (!d.has(m[i])) {
                if (!s.multi.has(i)) m[i] = d.first();
                else {
                    // need the solver: exists a model with byte i in d
                    Set256 save = s.dom[i];
                    s.dom[i] = d;
                    E any = nullptr;
                    for (auto& c : s.cons) if (!c.implied && c.e->sup.has(i)) { any = c.e; break; }
                    int sat = any ? solve(s, any, &m) : 1;
                    s.dom[i] = save;
                    if (!sat) continue;
                }
            }
            parts.push_back({ d, m });
        }
        if (parts.empty()) die("splitDom: no feasible part");
        if (parts.size() == 1) {
            s.model = parts[0].second;
            refineDom(s, i, parts[0].first);
            return false;
        }
        return true;
    }
    int forkDom(State& s, int i, std::vector<std::pair<Set256, std::vector<u8>>>& parts) {
        if (onFork(s)) return R_PRUNE;
        addR1(i);
        std::sort(parts.begin(), parts.end(), [](auto& a, auto& b) { return a.first.count() > b.first.count(); });
        for (size_t k = parts.size(); k-- > 1;) {
            State* c = clone(s);
            c->model = parts[k].second;
            refineDom(*c, i, parts[k].first);
            nodes.back().kids.push_back(c);
        }
        s.model = parts[0].second;
        refineDom(s, i, parts[0].first);
        return R_FORK;
    }
    // Make a value concrete, forking over its possible values. R0 => out set.
    int concretize(State& s, const Val& v, u64& out) {
        if (!v.e) { out = (u64)v.c; return R0; }
        E e = v.e;
        if (inSumm) {
            u64 n = 0;
            for (auto& i : s.iv) n += i.second - i.first + 1;
            if (n > 256) throw SummAbort();
            if (n == 0) throw SummAbort();
            u64 c = s.iv[0].first;
            E g = substVar(e, mkConst(c, 32));
            if (n == 1 && g->isC()) { out = (u64)g->val; return R0; }
            u64 mid = s.iv.size() > 1 ? s.iv[1].first : s.iv[0].first + (s.iv[0].second - s.iv[0].first + 1) / 2;
            std::sort(s.iv.begin(), s.iv.end());
            throw SummFork { mkCmp(K::Ult, mkVar(32), mkConst(mid, 32)) };
        }
        if (e->undef) throw Viol { "uninit", "address or size depends on uninitialised memory" };
        if (e->nsup == 1 && e->w <= 64) {
            int i = e->sym1;
            addR1(i);
            for (;;) {
                const Table* t = tableOf(e);
                sol.noteTable(e);
                std::map<u64, Set256> g;
                s.dom[i].each([&](unsigned k) { g[t->v[k]].add(k); });
                if (g.size() == 1) { out = g.begin()->first; return R0; }
                std::vector<Set256> in;
                for (auto& [val, d] : g) in.push_back(d);
                std::vector<std::pair<Set256, std::vector<u8>>> parts;
                if (!splitDom(s, i, in, parts)) continue;
                return forkDom(s, i, parts);
            }
        }
        if (E c = findIteCond(s, e, 0)) { int r = decide(s, c); if (r >= R_FORK) return r; /* decided: fallthrough */ }
        addR(e->sup);
        u128 mv = evalModel(e, s.model);
        int r = decide(s, mkCmp(K::Eq, e, mkConst(mv, e->w)));
        if (r >= R_FORK) return r;
        if (r == 1) { out = (u64)mv; return R0; }
        die("concretize inconsistency");
    }

    // ------------------------------------------------------------ memory
    Ref* findObj(State& s, u64 addr) {
        if (addr >= STACK_BASE) {
            auto& v = s.stack;
            auto it = std::upper_bound(v.begin(), v.end(), addr, [](u64 a, const Ref& r) { return a < r->base; });
            if (it == v.begin()) return nullptr;
            --it;
            return addr < (*it)->base + std::max<u32>(1, (*it)->size) || addr == (*it)->base + (*it)->size ? &*it : nullptr;
        }
        if (addr >= HEAP_BASE) {
            auto& v = s.heap;
            auto it = std::upper_bound(v.begin(), v.end(), addr, [](u64 a, const Ref& r) { return a < r->base; });
            if (it == v.begin()) return nullptr;
            --it;
            return addr <= (*it)->base + (*it)->size ? &*it : nullptr;
        }
        if (addr >= GLOBAL_BASE) {
            auto it = std::upper_bound(gbases.begin(), gbases.end(), addr);
            if (it == gbases.begin()) return nullptr;
            int k = gidx[it - gbases.begin() - 1];
            Ref* r = k >= 0 ? &s.glob[k] : &constGlobals[-1 - k];
            return addr <= (*r)->base + (*r)->size ? r : nullptr;
        }
        return nullptr;
    }
    Ref& access(State& s, u64 addr, u64 n, bool write) {
        Ref* r = findObj(s, addr);
        if (!r || addr + n > (*r)->base + (*r)->size || addr + n < addr) {
            char b[200];
            snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at 0x%llx%s%s", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr,
                     r ? ((*r)->kind == OK_HEAP ? " (past heap block)" : (*r)->kind == OK_STACK ? " (past stack object)" : " (past global)") : addr < 4096 ? " (null pointer)" : " (no object)", "");
            throw Viol { "memory", b };
        }
        if (write && (*r)->ro) throw Viol { "memory", "write to constant object " + (*r)->name };
        if (inSumm && !(*r)->ro && addr < s.summStack) throw SummAbort(); // summarised functions touch only constants and their own frame
        if ((*r)->ext) throw Viol { "engine", "access to external object " + (*r)->name };
        return *r;
    }
    Val readMem(Obj* o, u64 off, unsigned w, unsigned bytes) {
        bool sym = false;
        if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { sym = true; break; }
        if (!sym) {
            u128 v = 0;
            if (bytes <= 8) { u64 x = 0; memcpy(&x, &o->d[off], bytes); v = x; }
            else memcpy(&v, &o->d[off], std::min(16u, bytes));
            return VC(v & maskw(w));
        }
        auto byteE = [&](unsigned i) { return o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); };
        E e = byteE(bytes - 1);
        for (int i = (int)bytes - 2; i >= 0; i--) e = concatLow(e, byteE(i));
        if (e->w > w) e = mkExtract(e, 0, w);
        return VE(e);
    }
    static E concatLow(E hi, E lo) {
        // hi may be ZExt(x) where x's low part continues lo
        if (hi->k == K::ZExt && hi->a->k == K::Extract && lo->k == K::Extract && hi->a->a == lo->a && hi->a->val == lo->val + lo->w)
            return mkZExt(mkExtract(lo->a, (unsigned)lo->val, lo->w + hi->a->w), hi->w + lo->w);
        if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
        return mkConcat(hi, lo);
    }
    void writeMem(Ref& r, u64 off, const Val& v, unsigned w, unsigned bytes) {
        Obj* o = r.w();
        if (!v.e) {
            if (bytes <= 8) { u64 x = (u64)v.c; memcpy(&o->d[off], &x, bytes); }
            else { u128 x = v.c; memcpy(&o->d[off], &x, std::min(16u, bytes)); }
            if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr;
            return;
        }
        if (o->s.empty()) o->s.assign(o->size, nullptr);
        E e = v.e;
        if (e->w < bytes * 8) e = mkZExt(e, bytes * 8);
        for (unsigned i = 0; i < bytes; i++) {
            E x = mkExtract(e, i * 8, 8);
            if (x->isC()) { o->d[off + i] = (u8)x->val; o->s[off + i] = nullptr; }
            else { o->s[off + i] = x; o->d[off + i] = 0; }
        }
    }
    u64 heapAlloc(State& s, u64 size, u64 align) {
        if (align < 16) align = 16;
        u64 at = HEAP_BASE;
        size_t pos = 0;
        for (; pos < s.heap.size(); pos++) {
            u64 a = (at + align - 1) / align * align;
            if (a + size + 32 <= s.heap[pos]->base) break;
            at = s.heap[pos]->base + s.heap[pos]->size + 48;
        }
        u64 a = (at + align - 1) / align * align;
        Obj* o = new Obj;
        o->base = a; o->size = (u32)size; o->kind = OK_HEAP;
        o->d.assign(size, 0);
        o->s.assign(size, mkUndef());
        o->allocAlign = align;
        s.heap.insert(s.heap.begin() + pos, Ref(o));
        return a;
    }
    void heapFree(State& s, u64 a) {
        if (!a) return;
        for (size_t i = 0; i < s.heap.size(); i++)
            if (s.heap[i]->base == a) { s.heap.erase(s.heap.begin() + i); return; }
        throw Viol { "memory", "free of invalid pointer" };
    }
    std::string readStr(State& s, u64 a) {
        std::string r;
        for (;; a++) {
            Ref& o = access(s, a, 1, false);
            u64 off = a - o->base;
            if (!o->s.empty() && o->s[off]) { r += '?'; continue; }
            if (!o->d[off]) return r;
            r += (char)o->d[off];
        }
    }

    // ------------------------------------------------------------ execution
    Val get(Frame& f, int r) { return r >= 0 ? f.regs[r] : f.fn->consts[-r - 1]; }

    void pushFrame(State& s, Func* fn) {
        decode(fn);
        if (s.fr.size() > 400) throw Viol { "stack", "call depth exceeds 400 frames" };
        fn->calls++;
        Frame f;
        f.fn = fn; f.pc = 0;
        f.regs.resize(fn->nregs);
        f.stackMark = s.stack.size();
        f.sp = s.sp;
        s.fr.push_back(std::move(f));
    }
    void popFrame(State& s) {
        Frame& f = s.fr.back();
        s.stack.resize(f.stackMark);
        s.sp = f.sp;
        s.fr.pop_back();
    }
    void takeEdge(Frame& f, const Edge& e) {
        if (e.moves.size() == 1) f.regs[e.moves[0].first] = get(f, e.moves[0].second);
        else if (!e.moves.empty()) {
            SmallVector<Val, 16> t;
            for (auto& m : e.moves) t.push_back(get(f, m.second));
            for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].first] = t[i];
        }
        f.pc = e.pc;
    }
    // ---- exceptions
    bool tiMatch(u64 thrown, u64 want, int depth = 0) {
        if (want == 0 || thrown == want) return true;
        if (depth > 8) return false;
        for (auto& [gv, a] : gaddr) {
            if (a != thrown) continue;
            auto* g = dyn_cast<GlobalVariable>(gv);
            if (!g || !g->hasInitializer()) return false;
            auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
            if (!cs) return false;
            for (unsigned i = 2; i < cs->getNumOperands(); i++) {
                Constant* c = cs->getOperand(i);
                if (!c->getType()->isPointerTy() || c->isNullValue()) continue;
                if (tiMatch((u64)constScalar(c), want, depth + 1)) return true;
            }
            return false;
        }
        return false;
    }
    u64 tiSel(u64 ti) { return ti == 0 ? 1 : (ti & 0x7fffffff); }
    int unwind(State& s, u64 obj, u64 ti) {
        for (;;) {
            if (s.fr.empty()) throw Viol { "exception", "uncaught exception" };
            Frame& f = s.fr.back();
            const Inst& x = f.fn->code[f.pc];
            if (x.op == Op::Invoke) {
                const Edge& e = x.edges[1];
                const Inst& lp = f.fn->code[e.pc];
                if (lp.op != Op::LandingPad) die("landingpad expected");
                u64 sel = 0; bool hit = false;
                for (u64 c : lp.clauses) if (tiMatch(ti, c)) { sel = tiSel(c); hit = true; break; }
                if (!hit && lp.filter) { sel = 0x7ffffffe; hit = true; }
                if (hit || lp.cleanup) {
                    takeEdge(f, e);
                    f.regs[lp.dst] = VC(obj);
                    f.regs[lp.dst + 1] = VC(sel);
                    f.pc++;
                    return R0;
                }
            }
            if (x.op != Op::Invoke && x.op != Op::Call && x.op != Op::Resume && x.op != Op::LandingPad) die("unwind through non-call");
            if (x.src->getFunction()->doesNotThrow() && false) throw Viol { "exception", "exception escapes noexcept function" };
            popFrame(s);
        }
    }
    ExcInfo* findExc(State& s, u64 obj) { for (auto& e : s.exc) if (e.obj == obj) return &e; return nullptr; }

    std::string where(State& s) {
        std::string r;
        for (size_t k = s.fr.size(); k-- > 0 && r.size() < 1500;) {
            Func* f = s.fr[k].fn;
            std::string n = demangle(f->name);
            if (n.size() > 140) n = n.substr(0, 140) + "...";
            if (!r.empty()) r += " <- ";
            r += n;
        }
        return r;
    }

    void setRes(Frame& f, const Inst& x, const Val& v) { f.regs[x.dst] = v; }
    // after a non-frame call completes
    void advance(Frame& f, const Inst& x) {
        if (x.op == Op::Invoke) takeEdge(f, x.edges[0]);
        else f.pc++;
    }

    Val binop(const Inst& x, const Val& a, const Val& b) {
        if (!a.e && !b.e) {
            unsigned w = x.w;
            if (w <= 64) {
                u64 p = (u64)a.c, q = (u64)b.c, m = (u64)maskw(w);
                switch (x.bk) {
                case K::Add: return VC((p + q) & m);
                case K::Sub: return VC((p - q) & m);
                case K::Mul: return VC((p * q) & m);
                case K::And: return VC(p & q);
                case K::Or: return VC(p | q);
                case K::Xor: return VC(p ^ q);
                case K::Shl: return VC(q >= w ? 0 : (p << q) & m);
                case K::LShr: return VC(q >= w ? 0 : p >> q);
                default: break;
                }
            }
            if ((x.bk == K::UDiv || x.bk == K::SDiv || x.bk == K::URem || x.bk == K::SRem) && b.c == 0) throw Viol { "ub", "division by zero" };
            return VC(evalOp(x.bk, w, a.c, w, b.c, w, 0, 0));
        }
        return VE(mkBin(x.bk, toE(a, x.w), toE(b, x.w)));
    }
    Val icmp(const Inst& x, const Val& a, const Val& b) {
        if (!a.e && !b.e) {
            bool r;
            if (x.bk == K::Eq) r = a.c == b.c;
            else if (x.bk == K::Ult) r = a.c < b.c;
            else if (x.bk == K::Ule) r = a.c <= b.c;
            else r = evalOp(x.bk, x.w, a.c, x.w, b.c, x.w, 0, 0);
            return VC(r != x.neg);
        }
        E e = mkCmp(x.bk, toE(a, x.w), toE(b, x.w));
        return VE(x.neg ? mkNot(e) : e);
    }

    // one instruction; returns R0 to continue
    int step(State& s) {
        Frame& f = s.fr.back();
        Inst& x = f.fn->code[f.pc];
        f.fn->covered[f.pc] = 1;
        switch (x.op) {
        case Op::Nop: f.pc++; return R0;
        case Op::Bin: {
            Val a = get(f, x.a), b = get(f, x.b);
            if (b.e && (x.bk == K::UDiv || x.bk == K::SDiv || x.bk == K::URem || x.bk == K::SRem)) {
                int r = decide(s, mkCmp(K::Eq, b.e, mkConst(0, x.w)));
                if (r >= R_FORK) return r;
                if (r == 1) throw Viol { "ub", "division by zero" };
            }
            f.regs[x.dst] = binop(x, a, b); f.pc++; return R0;
        }
        case Op::ICmp: f.regs[x.dst] = icmp(x, get(f, x.a), get(f, x.b)); f.pc++; return R0;
        case Op::Cast: {
            Val a = get(f, x.a);
            if (!a.e) {
                u128 v = a.c;
                if (x.bk == K::SExt) v = (u128)sgn(v, x.w2) & maskw(x.w);
                else v &= maskw(x.w);
                f.regs[x.dst] = VC(v);
            } else if (x.bk == K::ZExt) f.regs[x.dst] = VE(mkZExt(a.e, x.w));
            else if (x.bk == K::SExt) f.regs[x.dst] = VE(mkSExt(a.e, x.w));
            else f.regs[x.dst] = VE(mkExtract(a.e, 0, x.w));
            f.pc++;
            return R0;
        }
        case Op::Select: {
            Val c = get(f, x.a);
            int r;
            if (!c.e) r = c.c != 0;
            else {
                if (!x.isPtr && x.leaves.size() == 1 && x.leaves[0].w < 64) {
                    int k = c.e->undef || inSumm ? 2 : eval3(s, c.e);
                    if (k == 2) {
                        unsigned w = x.leaves[0].w;
                        f.regs[x.dst] = VE(mkIte(c.e, toE(get(f, x.args[0]), w), toE(get(f, x.args[1]), w)));
                        f.pc++;
                        return R0;
                    }
                    r = k;
                } else {
                    r = decide(s, c.e);
                    if (r >= R_FORK) return r;
                }
            }
            for (size_t k = 0; k < x.leaves.size(); k++) f.regs[x.dst + k] = get(f, x.args[2 * k + (r ? 0 : 1)]);
            f.pc++;
            return R0;
        }
        case Op::Copy:
            if (x.terms.size() == 1) f.regs[x.terms[0].first] = get(f, (int)x.terms[0].second);
            else {
                SmallVector<Val, 8> t;
                for (auto& m : x.terms) t.push_back(get(f, (int)m.second));
                for (size_t k = 0; k < t.size(); k++) f.regs[x.terms[k].first] = t[k];
            }
            f.pc++;
            return R0;
        case Op::Gep: {
            Val p = get(f, x.a);
            u64 c = x.imm;
            E e = p.e;
            if (!e) c += (u64)p.c;
            for (size_t k = 0; k < x.terms.size(); k++) {
                Val v = get(f, x.terms[k].first);
                i64 sc = x.terms[k].second;
                if (!v.e) c += (u64)((i64)sgn(v.c, x.tw[k]) * sc);
                else {
                    E t = mkBin(K::Mul, mkSExt(v.e, 64), mkConst((u64)sc, 64));
                    e = e ? mkBin(K::Add, e, t) : t;
                }
            }
            f.regs[x.dst] = e ? VE(mkBin(K::Add, e, mkConst(c, 64))) : VC(c);
            f.pc++;
            return R0;
        }
        case Op::Load: {
            Val p = get(f, x.a);
            u64 addr;
            if (p.e) {
                int r = symLoad(s, f, x, p.e);
                if (r == 100) return R0;
                if (r != 101) return r;
                r = concretize(s, p, addr);
                if (r >= R_FORK) return r;
            } else addr = (u64)p.c;
            for (size_t k = 0; k < x.leaves.size(); k++) {
                const Leaf& l = x.leaves[k];
                Ref& o = access(s, addr + l.off, l.bytes, false);
                f.regs[x.dst + k] = readMem(o.p, addr + l.off - o->base, l.w, l.bytes);
            }
            f.pc++;
            return R0;
        }
        case Op::Store: {
            Val p = get(f, x.a);
            u64 addr;
            int r = concretize(s, p, addr);
            if (r >= R_FORK) return r;
            for (size_t k = 0; k < x.leaves.size(); k++) {
                const Leaf& l = x.leaves[k];
                Ref& o = access(s, addr + l.off, l.bytes, true);
                writeMem(o, addr + l.off - o->base, get(f, x.args[k]), l.w, l.bytes);
            }
            f.pc++;
            return R0;
        }
        case Op::Alloca: {
            u64 al = std::max<u64>(16, x.w);
            u64 a = (s.sp + al - 1) / al * al;
            Obj* o = new Obj;
            o->base = a; o->size = (u32)x.imm; o->kind = OK_STACK;
            o->d.assign(o->size, 0);
            o->s.assign(o->size, mkUndef());
            s.stack.emplace_back(o);
            s.sp = a + x.imm + 32;
            f.regs[x.dst] = VC(a);
            f.pc++;
            return R0;
        }
        case Op::Br: takeEdge(f, x.edges[0]); return R0;
        case Op::CondBr: {
            Val c = get(f, x.a);
            int r;
            if (!c.e) r = c.c != 0;
            else { r = decide(s, c.e); if (r >= R_FORK) return r; }
            takeEdge(f, x.edges[r ? 0 : 1]);
            return R0;
        }
        case Op::Switch: {
            Val c = get(f, x.a);
            if (c.e) {
                if (c.e->undef) throw Viol { "uninit", "switch on uninitialised memory" };
                if (c.e->nsup == 1 && !inSumm) {
                    int i = c.e->sym1;
                    addR1(i);
                    const Table* t = tableOf(c.e);
                    sol.noteTable(c.e);
                    std::map<int, Set256> g;
                    std::map<u64, int> tgt;
                    for (size_t k = 0; k < x.cases.size(); k++) tgt[(u64)x.cases[k]] = (int)k + 1;
                    auto edgeOf = [&](u64 v) { auto it = tgt.find(v); int k = it == tgt.end() ? 0 : it->second; 
                        // merge edges with identical destination and no phi moves
                        if (x.edges[k].moves.empty()) for (int j = 0; j < k; j++) if (x.edges[j].pc == x.edges[k].pc) return j;
                        return k; };
                    s.dom[i].each([&](unsigned k) { g[edgeOf(t->v[k])].add(k); });
                    if (g.size() > 1) {
                        std::vector<Set256> in;
                        for (auto& [k, d] : g) in.push_back(d);
                        std::vector<std::pair<Set256, std::vector<u8>>> parts;
                        if (!splitDom(s, i, in, parts)) return R0; // re-execute
                        return forkDom(s, i, parts);
                    }
                    takeEdge(f, x.edges[g.begin()->first]);
                    return R0;
                }
                for (size_t k = 0; k < x.cases.size(); k++) {
                    int r = decide(s, mkCmp(K::Eq, c.e, mkConst(x.cases[k], x.w)));
                    if (r >= R_FORK) return r;
                    if (r) { takeEdge(f, x.edges[k + 1]); return R0; }
                }
                takeEdge(f, x.edges[0]);
                return R0;
            }
            for (size_t k = 0; k < x.cases.size(); k++) if (x.cases[k] == c.c) { takeEdge(f, x.edges[k + 1]); return R0; }
            takeEdge(f, x.edges[0]);
            return R0;
        }
        case Op::Ret: {
            SmallVector<Val, 8> t;
            for (int r : x.args) t.push_back(get(f, r));
            popFrame(s);
            if (s.fr.empty()) return R_END;
            Frame& c = s.fr.back();
            const Inst& ci = c.fn->code[c.pc];
            if (ci.dst >= 0) for (size_t k = 0; k < t.size(); k++) c.regs[ci.dst + k] = t[k];
            advance(c, ci);
            return R0;
        }
        case Op::Unreachable: throw Viol { "ub", "unreachable code reached" };
        case Op::LandingPad: die("landingpad executed directly");
        case Op::Resume: {
            u64 obj = (u64)get(f, x.args[0]).c;
            ExcInfo* e = findExc(s, obj);
            if (!e) die("resume without exception");
            u64 ti = e->ti;
            popFrame(s);
            return unwind(s, obj, ti);
        }
        case Op::Call: case Op::Invoke: return call(s, f, x);
        }
        die("bad op");
    }

    // symbolic-address load from a constant table. 100: done, 101: fall back to concretisation
    int symLoad(State& s, Frame& f, const Inst& x, E p) {
        if (p->undef) throw Viol { "uninit", "load address depends on uninitialised memory" };
        if (inSumm) return 101;
        if (p->nsup != 1 || x.leaves.size() != 1 || x.leaves[0].w > 64) return 101;
        int i = p->sym1;
        addR1(i);
        const Table* t = tableOf(p);
        sol.noteTable(p);
        const Leaf& l = x.leaves[0];
        Ref* o = nullptr;
        bool ok = true;
        s.dom[i].each([&](unsigned k) {
            if (!ok) return;
            Ref* r = findObj(s, t->v[k]);
            if (!r || t->v[k] + l.bytes > (*r)->base + (*r)->size) { ok = false; return; }
            if (o && o != r) { ok = false; return; }
            o = r;
        });
        if (!ok || !o || !(*o)->ro || (*o)->ext) return 101;
        Table out;
        for (int k = 0; k < 256; k++) {
            u64 a = t->v[k];
            if (a < (*o)->base || a + l.bytes > (*o)->base + (*o)->size) { out.v[k] = 0; continue; }
            out.v[k] = (u64)readMem(o->p, a - (*o)->base, l.w, l.bytes).c;
        }
        u64 v0 = out.v[s.dom[i].first()];
        bool same = true;
        s.dom[i].each([&](unsigned k) { if (out.v[k] != v0) same = false; });
        f.regs[x.dst] = same ? VC(v0) : VE(mkTab(i, l.w, out));
        f.pc++;
        return 100;
    }

    E ctlzE(E a) {
        unsigned w = a->w;
        E r = mkConst(w, w);
        for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r);
        return r;
    }
    E cttzE(E a) {
        unsigned w = a->w;
        E r = mkConst(w, w);
        for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r);
        return r;
    }

    int call(State& s, Frame& f, Inst& x) {
        Func* callee = x.callee;
        int intr = x.intr;
        if (x.indirect) {
            u64 a;
            int r = concretize(s, get(f, x.fp), a);
            if (r >= R_FORK) return r;
            u64 k = (a - FUNC_BASE) / 16;
            if (a < FUNC_BASE || k >= funcList.size() || (a & 15)) throw Viol { "memory", "call through invalid function pointer" };
            callee = funcList[k];
            intr = callee->intr;
        }
        if (intr && intr != I_BADEXT) return intrinsic(s, f, x, intr);
        if (callee->f->isDeclaration()) throw Viol { "engine", "call to unmodelled external function " + callee->name };
        SmallVector<Val, 16> args;
        for (int r : x.args) args.push_back(get(f, r));
        if (trySummary(s, f, x, callee, args)) return R0;
        pushFrame(s, callee);
        Frame& n = s.fr.back();
        if (args.size() < (size_t)callee->nargs) throw Viol { "ub", "call with too few arguments" };
        for (int k = 0; k < callee->nargs; k++) n.regs[k] = args[k];
        return R0;
    }

    int intrinsic(State& s, Frame& f, Inst& x, int intr) {
        if (inSumm && intr >= I_SYM_BYTES) throw SummAbort();
        auto A = [&](int k) { return get(f, x.args[k]); };
        auto conc = [&](int k, u64& o) { return concretize(s, A(k), o); };
        unsigned w = x.w;
        switch (intr) {
        case I_NOP: break;
        case I_EXPECT: setRes(f, x, A(0)); break;
        case I_MEMCPY: {
            u64 d, p, n; int r;
            if ((r = conc(2, n)) >= R_FORK) return r;
            if ((r = conc(0, d)) >= R_FORK) return r;
            if ((r = conc(1, p)) >= R_FORK) return r;
            if (n) {
                Ref src = access(s, p, n, false);
                Ref& dst = access(s, d, n, true);
                u64 so = p - src->base, dof = d - dst->base;
                Obj* o = dst.w();
                std::vector<u8> tmp(src->d.begin() + so, src->d.begin() + so + n);
                bool any = false;
                std::vector<E> te;
                if (!src->s.empty()) { te.assign(src->s.begin() + so, src->s.begin() + so + n); for (E e : te) if (e) any = true; }
                memcpy(&o->d[dof], tmp.data(), n);
                if (any) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) o->s[dof + i] = te[i]; }
                else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[dof + i] = nullptr;
            }
            break;
        }
        case I_MEMSET: {
            u64 d, n; int r;
            if ((r = conc(2, n)) >= R_FORK) return r;
            if ((r = conc(0, d)) >= R_FORK) return r;
            Val v = A(1);
            if (n) {
                Ref& dst = access(s, d, n, true);
                Obj* o = dst.w();
                u64 off = d - o->base;
                if (!v.e) { memset(&o->d[off], (int)v.c, n); if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr; }
                else { if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) { o->s[off + i] = v.e; o->d[off + i] = 0; } }
            }
            break;
        }
        case I_TRAP: throw Viol { "ub", "trap (undefined behaviour check or __builtin_trap)" };
        case I_LIFE_START: case I_LIFE_END: {
            u64 p = (u64)A(x.args.size() - 1).c;
            if (p >= STACK_BASE) {
                Ref* r = findObj(s, p);
                if (r && (*r)->base == p) {
                    Obj* o = r->w();
                    std::fill(o->d.begin(), o->d.end(), 0);
                    o->s.assign(o->size, mkUndef());
                }
            }
            break;
        }
        case I_TLADDR: setRes(f, x, A(0)); break;
        case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
            Val a = A(0), b = A(1);
            K k = intr == I_UMIN || intr == I_UMAX ? K::Ult : K::Slt;
            bool mx = intr == I_UMAX || intr == I_SMAX;
            if (!a.e && !b.e) {
                bool lt = evalOp(k, w, a.c, w, b.c, w, 0, 0);
                setRes(f, x, lt != mx ? a : b);
            } else {
                E c = mkCmp(k, toE(a, w), toE(b, w));
                if (w >= 64) {
                    int r = decide(s, c);
                    if (r >= R_FORK) return r;
                    setRes(f, x, (r != 0) != mx ? a : b);
                } else setRes(f, x, VE(mx ? mkIte(c, toE(b, w), toE(a, w)) : mkIte(c, toE(a, w), toE(b, w))));
            }
            break;
        }
        case I_ABS: {
            E a = toE(A(0), w);
            setRes(f, x, VE(mkIte(mkCmp(K::Slt, a, mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), a), a)));
            break;
        }
        case I_CTLZ: setRes(f, x, VE(ctlzE(toE(A(0), w)))); break;
        case I_CTTZ: setRes(f, x, VE(cttzE(toE(A(0), w)))); break;
        case I_CTPOP: {
            E a = toE(A(0), w), r = mkConst(0, w);
            for (unsigned i = 0; i < w; i++) r = mkBin(K::Add, r, mkZExt(mkExtract(a, i, 1), w));
            setRes(f, x, VE(r));
            break;
        }
        case I_BSWAP: {
            E a = toE(A(0), w), r = mkExtract(a, 0, 8);
            for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a, i, 8));
            setRes(f, x, VE(r));
            break;
        }
        case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
            E a = toE(A(0), w), b = toE(A(1), w);
            bool sg = intr == I_SADDO || intr == I_SSUBO || intr == I_SMULO;
            K k = intr == I_UADDO || intr == I_SADDO ? K::Add : intr == I_USUBO || intr == I_SSUBO ? K::Sub : K::Mul;
            unsigned W = k == K::Mul ? 2 * w : w + 1;
            E res = mkBin(k, a, b), ov;
            if (W > 128) {
                if (!(a->isC() && b->isC())) die("wide overflow op");
                die("128-bit overflow op");
            }
            if (k == K::Mul && W > 64 && !(a->isC() && b->isC()) && (a->isC() || b->isC()) && !sg) {
                E v = a->isC() ? b : a; u128 c = a->isC() ? a->val : b->val;
                ov = c == 0 ? mkConst(0, 1) : mkCmp(K::Ult, mkConst(maskw(w) / c, w), v);
            } else {
                E ea = sg ? mkSExt(a, W) : mkZExt(a, W), eb = sg ? mkSExt(b, W) : mkZExt(b, W);
                E wide = mkBin(k, ea, eb);
                ov = mkNot(mkCmp(K::Eq, wide, sg ? mkSExt(res, W) : mkZExt(res, W)));
            }
            f.regs[x.dst] = VE(res);
            f.regs[x.dst + 1] = VE(ov);
            break;
        }
        case I_USUBSAT: { E a = toE(A(0), w), b = toE(A(1), w); setRes(f, x, VE(mkIte(mkCmp(K::Ult, a, b), mkConst(0, w), mkBin(K::Sub, a, b)))); break; }
        case I_UADDSAT: { E a = toE(A(0), w), b = toE(A(1), w); E r = mkBin(K::Add, a, b); setRes(f, x, VE(mkIte(mkCmp(K::Ult, r, a), mkConst(maskw(w), w), r))); break; }
        case I_FSHL: case I_FSHR: {
            E a = toE(A(0), w), b = toE(A(1), w);
            Val c = A(2);
            u64 n; int r = concretize(s, c, n);
            if (r >= R_FORK) return r;
            n %= w;
            E cat = nullptr;
            if (2 * w <= 128) { cat = mkConcat(a, b); setRes(f, x, VE(intr == I_FSHL ? mkExtract(cat, w - n, w) : mkExtract(cat, n, w))); }
            else die("fsh");
            break;
        }
        case I_TYPEID: setRes(f, x, VC(tiSel((u64)A(0).c))); break;
        // ---- harness API
        case I_SYM_BYTES: {
            u64 p, n; int r;
            if ((r = conc(1, n)) >= R_FORK) return r;
            if ((r = conc(0, p)) >= R_FORK) return r;
            if (n) {
                Ref& dst = access(s, p, n, true);
                Obj* o = dst.w();
                if (o->s.empty()) o->s.assign(o->size, nullptr);
                for (u64 i = 0; i < n; i++) {
                    unsigned id = s.dom.size();
                    if (id >= 250) die("too many symbolic bytes");
                    s.dom.push_back(Set256::full());
                    s.model.push_back('a');
                    o->s[p - o->base + i] = mkSym(id);
                    o->d[p - o->base + i] = 0;
                }
            }
            break;
        }
        case I_SYM_ASSUME: {
            Val c = A(0);
            int r = c.e ? decide(s, c.e->w == 1 ? c.e : mkNot(mkCmp(K::Eq, c.e, mkConst(0, c.e->w)))) : c.c != 0;
            if (r >= R_FORK) return r;
            if (!r) { ignored++; return R_END; }
            break;
        }
        case I_SYM_IGNORE: ignored++; return R_END;
        case I_SYM_ASSERT: {
            Val c = A(0);
            asserts++;
            int r = c.e ? decide(s, c.e->w == 1 ? c.e : mkNot(mkCmp(K::Eq, c.e, mkConst(0, c.e->w)))) : c.c != 0;
            if (r >= R_FORK) return r;
            if (!r) throw Viol { "assert", readStr(s, (u64)A(1).c) };
            break;
        }
        case I_SYM_COVER: covers[readStr(s, (u64)A(0).c)]++; break;
        case I_SYM_PARAM: {
            auto it = params.find(readStr(s, (u64)A(0).c));
            setRes(f, x, it == params.end() ? A(1) : VC((u64)it->second));
            break;
        }
        case I_SYM_BLOB: {
            auto it = blobs.find(readStr(s, (u64)A(0).c));
            if (it == blobs.end()) { setRes(f, x, VC(0)); break; }
            u64 dst = (u64)A(1).c;
            const std::string& bl = it->second;
            if (bl.size() > (u64)A(2).c) die("blob larger than buffer");
            if (!bl.empty()) {
                Ref& o = access(s, dst, bl.size(), true);
                Obj* ow = o.w();
                for (size_t k = 0; k < bl.size(); k++) { ow->d[dst - ow->base + k] = (u8)bl[k]; if (!ow->s.empty()) ow->s[dst - ow->base + k] = nullptr; }
            }
            setRes(f, x, VC(bl.size()));
            break;
        }
        case I_SYM_LOG: if (A(0).e) die("symbolic log tag"); s.log.push_back({ (u64)A(0).c, A(1) }); break;
        case I_SYM_CONC: {
            u64 v; int r = conc(0, v);
            if (r >= R_FORK) return r;
            setRes(f, x, VC(v));
            break;
        }
        case I_SYM_ISSYM: setRes(f, x, VC(A(0).e != nullptr)); break;
        case I_SYM_MALLOC: {
            u64 n, al; int r;
            if ((r = conc(0, n)) >= R_FORK) return r;
            if ((r = conc(1, al)) >= R_FORK) return r;
            if (n > (1u << 26)) throw Viol { "memory", "allocation of more than 64 MiB" };
            setRes(f, x, VC(heapAlloc(s, n, al)));
            break;
        }
        case I_SYM_FREE: {
            u64 p; int r;
            if ((r = conc(0, p)) >= R_FORK) return r;
            heapFree(s, p);
            break;
        }
        case I_SYM_RESET: // the library's own static data goes back to what it was when the program started
            for (size_t i = 0; i < s.glob.size(); i++)
                if (globInit[i]->name.find("ulight") != std::string::npos) s.glob[i] = globInit[i];
            break;
        case I_SYM_HEAPLIVE: setRes(f, x, VC(s.heap.size())); break;
        // ---- C++ runtime
        case I_CXA_ALLOC: {
            u64 n; int r;
            if ((r = conc(0, n)) >= R_FORK) return r;
            setRes(f, x, VC(heapAlloc(s, n ? n : 1, 16)));
            break;
        }
        case I_CXA_FREE: heapFree(s, (u64)A(0).c); break;
        case I_CXA_THROW: {
            u64 obj = (u64)A(0).c, ti = (u64)A(1).c, dt = (u64)A(2).c;
            s.exc.push_back({ obj, ti, dt, 0 });
            return unwind(s, obj, ti);
        }
        case I_CXA_RETHROW: {
            if (s.caught.empty()) throw Viol { "exception", "rethrow without exception" };
            u64 obj = s.caught.back();
            return unwind(s, obj, findExc(s, obj)->ti);
        }
        case I_CXA_BEGIN: {
            u64 obj = (u64)A(0).c;
            if (ExcInfo* e = findExc(s, obj)) e->handlers++;
            s.caught.push_back(obj);
            if (x.dst >= 0) setRes(f, x, VC(obj));
            break;
        }
        case I_CXA_END: {
            if (s.caught.empty()) throw Viol { "exception", "__cxa_end_catch without exception" };
            u64 obj = s.caught.back();
            s.caught.pop_back();
            ExcInfo* e = findExc(s, obj);
            if (e && --e->handlers <= 0) {
                u64 dt = e->dtor;
                s.exc.erase(s.exc.begin() + (e - &s.exc[0]));
                if (dt) {
                    u64 k = (dt - FUNC_BASE) / 16;
                    if (k < funcList.size() && !funcList[k]->f->isDeclaration() && funcList[k]->name.compare(0, 5, "_ZNSt") != 0) die("exception destructors are not modelled: " + funcList[k]->name);
                }
                heapFree(s, obj);
            }
            break;
        }
        case I_TERMINATE: throw Viol { "exception", "std::terminate called" };
        case I_ABORT: throw Viol { "abort", "abort/exit called" };
        case I_GUARD_ACQ: {
            Ref& o = access(s, (u64)A(0).c, 1, false);
            setRes(f, x, VC(o->d[(u64)A(0).c - o->base] == 0));
            break;
        }
        case I_GUARD_REL: {
            Ref& o = access(s, (u64)A(0).c, 1, true);
            writeMem(o, (u64)A(0).c - o->base, VC(1), 8, 1);
            break;
        }
        case I_ATEXIT: if (x.dst >= 0) setRes(f, x, VC(0)); break;
        default: die("intrinsic " + std::to_string(intr) + " in " + f.fn->name);
        }
        advance(s.fr.back(), x);
        return R0;
    }

    void recordViolation(State& s, const Viol& v) {
        std::string key = v.kind + "|" + v.msg;
        auto it = violIdx.find(key);
        if (it != violIdx.end()) { viols[it->second].count++; return; }
        // the model satisfies every path constraint; check it before reporting
        for (auto& c : s.cons) if (!evalModel(c.e, s.model)) die("internal: model does not satisfy path constraint");
        for (size_t i = 0; i < s.dom.size(); i++) if (!s.dom[i].has(s.model[i])) die("internal: model outside domain");
        VRec r;
        r.kind = v.kind; r.msg = v.msg; r.where = where(s); r.model = s.model;
        violIdx[key] = viols.size();
        viols.push_back(r);
    }

    void addSample(State& s) {
        u64 n = paths;
        bool take = (int)samples.size() < nSamples;
        size_t slot = samples.size();
        if (!take && nSamples) { u64 h = mix64(n * 0x9e3779b97f4a7c15ull); if (h % (n / nSamples + 1) == 0) { take = true; slot = (h >> 20) % nSamples; } }
        if (!take) return;
        Sample sm;
        sm.model = s.model;
        for (auto& [t, v] : s.log) sm.log.push_back({ t, v.e ? (u64)evalModel(v.e, s.model) : (u64)v.c });
        if (slot == samples.size()) samples.push_back(sm);
        else samples[slot] = sm;
    }

    void explore(State* init) {
        nodes.emplace_back(); // root
        State* cur = init;
        try {
            for (;;) {
                int r;
                try {
                    do {
                        r = step(*cur);
                        steps++;
                        if (++cur->steps > maxPathSteps) throw Viol { "hang", "path exceeds step limit" };
                        if ((steps & 0xffff) == 0 && elapsed() > maxTime) { incomplete = true; incompleteWhy = "time budget"; throw Stop(); }
                    } while (r == R0);
                } catch (Viol& v) {
                    if (v.kind == "engine") { incomplete = true; incompleteWhy = v.msg + " at " + where(*cur); throw Stop(); }
                    recordViolation(*cur, v);
                    if ((int)viols.size() >= maxViol) throw Stop();
                    r = R_END;
                }
                if (r == R_FORK) continue; // cur is the first child
                if (r == R_END) { paths++; if (cur->fr.empty()) addSample(*cur); }
                delete cur;
                cur = nullptr;
                for (;;) {
                    if (nodes.size() == 1) return;
                    if (!nodes.back().kids.empty()) { cur = nodes.back().kids.back(); nodes.back().kids.pop_back(); break; }
                    finishNode();
                }
            }
        } catch (Stop&) { }
    }
};

int main(int argc, char** argv) {
    Engine& en = *new Engine;
    std::string bc, entry, out;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("--entry=", 0) == 0) entry = val("--entry=");
        else if (a.rfind("--out=", 0) == 0) out = val("--out=");
        else if (a.rfind("--time=", 0) == 0) en.maxTime = atof(val("--time=").c_str());
        else if (a.rfind("--path-steps=", 0) == 0) en.maxPathSteps = atoll(val("--path-steps=").c_str());
        else if (a.rfind("--samples=", 0) == 0) en.nSamples = atoi(val("--samples=").c_str());
        else if (a.rfind("--max-viol=", 0) == 0) en.maxViol = atoi(val("--max-viol=").c_str());
        else if (a == "--prof") en.prof = true;
        else if (a == "--no-dedup") en.dedup = false;
        else if (a.rfind("--param=", 0) == 0) {
            std::string kv = val("--param=");
            size_t e = kv.find('=');
            en.params[kv.substr(0, e)] = atoll(kv.substr(e + 1).c_str());
        } else if (a.rfind("--blob=", 0) == 0) {
            std::string kv = val("--blob=");
            size_t e = kv.find('=');
            std::ifstream f(kv.substr(e + 1), std::ios::binary);
            if (!f) die("cannot read " + kv.substr(e + 1));
            en.blobs[kv.substr(0, e)] = std::string(std::istreambuf_iterator<char>(f), {});
        } else bc = a;
    }
    en.t0 = std::chrono::steady_clock::now();
    en.load(bc);
    State* s = new State;
    en.initGlobals(*s);
    double loadT = en.elapsed();
    Function* ef = en.mod->getFunction(entry);
    if (!ef || ef->isDeclaration()) die("no entry " + entry);
    // run global constructors concretely
    if (auto* gc = en.mod->getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, Function*>> ctors;
        if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& op : arr->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                if (auto* fn = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn });
            }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        en.nodes.emplace_back();
        for (auto& [p, fn] : ctors) {
            en.pushFrame(*s, en.funcs.at(fn));
            try { while (en.step(*s) == R0) { } }
            catch (Viol& v) { die("global constructor: " + v.msg + " " + en.where(*s)); }
        }
        en.nodes.clear();
        s->steps = 0;
    }
    en.globInit = s->glob;
    en.pushFrame(*s, en.funcs.at(ef));
    en.explore(s);
    en.sol.flushTables();
    if (en.prof) {
        auto dump = [](const char* t, std::map<std::string, u64>& m) {
            std::vector<std::pair<u64, std::string>> v;
            for (auto& [k, c] : m) v.push_back({ c, k });
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%s %8llu %s\n", t, (unsigned long long)v[i].first, demangle(v[i].second.substr(0, v[i].second.find(':'))).substr(0, 150).c_str());
        };
        dump("fork", en.profForks);
        dump("query", en.profQueries);
    }

    std::string j = "{";
    auto num = [&](const char* k, double v) { char b[100]; snprintf(b, 100, "\"%s\": %.17g, ", k, v); j += b; };
    j += "\"entry\": " + jesc(entry) + ", \"params\": {";
    bool first = true;
    for (auto& [k, v] : en.params) { if (!first) j += ", "; first = false; j += jesc(k) + ": " + std::to_string(v); }
    j += "}, ";
    num("paths", en.paths); num("pruned", en.pruned); num("forks", en.forksN); num("steps", en.steps); num("ignored", en.ignored); num("asserts", en.asserts);
    num("exprs", exprCount());
    num("queries", en.sol.st.queries); num("sat", en.sol.st.sat); num("unsat", en.sol.st.unsat); num("unknown", en.sol.st.unknown);
    num("cache_hits", en.sol.st.cacheHits); num("table_obligations", en.sol.st.tableObligations); num("table_queries", en.sol.st.tableQueries);
    num("summaries", en.summCount); num("solver_s", en.sol.st.time); num("load_s", loadT); num("wall_s", en.elapsed());
    j += "\"complete\": " + std::string(en.incomplete ? "false" : "true") + ", \"why\": " + jesc(en.incompleteWhy) + ", ";
    j += "\"covers\": {";
    first = true;
    for (auto& [k, v] : en.covers) { if (!first) j += ", "; first = false; j += jesc(k) + ": " + std::to_string(v); }
    j += "}, \"functions\": [";
    first = true;
    for (Func* f : en.funcList) {
        if (!f->calls) continue;
        size_t c = 0; for (u8 b : f->covered) c += b;
        if (!first) j += ", ";
        first = false;
        j += "[" + jesc(f->name) + ", " + std::to_string(c) + ", " + std::to_string(f->code.size()) + "]";
    }
    j += "], \"samples\": [";
    first = true;
    auto hex = [](const std::vector<u8>& m) { std::string h; char b[4]; for (u8 x : m) { snprintf(b, 4, "%02x", x); h += b; } return h; };
    for (auto& sm : en.samples) {
        if (!first) j += ", ";
        first = false;
        j += "{\"bytes\": \"" + hex(sm.model) + "\", \"log\": [";
        bool f2 = true;
        for (auto& [t, v] : sm.log) { if (!f2) j += ", "; f2 = false; j += "[" + std::to_string(t) + ", " + std::to_string(v) + "]"; }
        j += "]}";
    }
    j += "], \"violations\": [";
    first = true;
    for (auto& v : en.viols) {
        if (!first) j += ", ";
        first = false;
        j += "{\"kind\": " + jesc(v.kind) + ", \"msg\": " + jesc(v.msg) + ", \"where\": " + jesc(v.where) + ", \"bytes\": \"" + hex(v.model) + "\", \"count\": " + std::to_string(v.count) + "}";
    }
    j += "]}\n";
    if (out.empty()) fputs(j.c_str(), stdout);
    else { FILE* fo = fopen(out.c_str(), "w"); if (!fo) die("cannot write " + out); fputs(j.c_str(), fo); fclose(fo); }
    fflush(stdout);
    _exit(0);
}
