#include <thread>
// symx.cpp - path-based symbolic executor for LLVM bitcode.
//
// Executes harness() of a linked module.  nd(w) yields a fresh w-bit symbolic value; every branch whose
// condition depends on symbolic values is decided by Z3 (QF_BV): feasible sides are all followed.  Every
// sx_check() and every memory access is an assertion: the solver is asked for values of the symbolic
// inputs that violate it under the path condition.  Nothing is sampled: a path is dropped only if the
// solver proved it infeasible.
#include "expr.h"
#include <map>
#include <array>
#include <memory>
#include <deque>
#include <unordered_set>
#include <csignal>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

struct V { uint64_t v = 0; E e = 0; };
static inline V cv(uint64_t v) { V r; r.v = v; return r; }
static inline E toE(const V &x, unsigned w) { return x.e ? x.e : X.cst(w, x.v); }
static inline V fromE(E e) { V r; if (X.isc(e)) r.v = X.cv(e); else r.e = e; return r; }

struct Unsupported { std::string m; };
static bool running = false;        // on a path: only that path is given up, and the run is reported as incomplete
[[noreturn]] static void die(const std::string &m) { if (running) throw Unsupported{m}; fprintf(stderr, "symx: unsupported: %s\n", m.c_str()); exit(3); }

// ---------------------------------------------------------------- memory
struct Cell { uint32_t n; E e; };                  // n bytes holding term e
struct Obj {
    uint64_t base; uint32_t size; bool ro = false, heap = false, freed = false, shared = false; const char *name = "";
    std::vector<uint8_t> d, kind;                  // kind: 0 concrete, 1 uninitialised, 2 symbolic
    std::map<uint32_t, Cell> cells;
};
typedef std::shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- code
struct Opd { int32_t slot = -1; uint8_t undef = 0, w = 64; uint64_t k = 0; };
enum IOp : uint8_t { I_BIN, I_CMP, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SEL,
    I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_UNREACH, I_EXTRV, I_INSV, I_RMW, I_CAS, I_NOP, I_FREEZE };
struct FuncI;
struct Fld { uint32_t off; uint8_t bytes; uint8_t w; };   // flattened scalar of a first-class value
struct Ins {
    IOp op; Op bop = O_NONE; uint8_t w = 0, w2 = 0, pred = 0; bool nsw = false, neg = false, swp = false;
    int32_t dst = -1; uint32_t n = 1;
    std::vector<Opd> o; std::vector<Fld> f; std::vector<std::pair<uint8_t, uint64_t>> scale; uint64_t k = 0;
    std::vector<int> tgt; std::vector<uint64_t> cases;
    FuncI *callee = nullptr; std::vector<uint8_t> aw; std::vector<uint32_t> an;
    const Instruction *src = nullptr;
};
struct Blk { uint32_t start; std::vector<std::pair<int, std::vector<std::tuple<int32_t, uint32_t, std::vector<Opd>>>>> phis; };
struct FuncI { const Function *f; std::string name; uint64_t addr; std::vector<Ins> code; std::vector<Blk> blk; uint32_t nslots = 0; int intr = -1; bool lib = false; std::string bad;
    std::vector<uint8_t> slotw; std::vector<std::pair<int32_t, uint32_t>> args; std::vector<std::vector<uint8_t>> argw; bool ready = false; uint64_t calls = 0; };

struct Frame { FuncI *f; uint32_t pc; int blk; std::vector<V> r; std::vector<uint64_t> allocas; std::vector<std::pair<V, uint8_t>> va; const Ins *call; };
struct Jmp { uint64_t buf; size_t depth; uint32_t pc; int blk; };
struct Thread { std::vector<Frame> st; uint64_t err = 0; std::map<uint64_t, uint64_t> tls; std::vector<Jmp> jmps; };
struct Acc { uint8_t tid, mask, write, atomic; uint32_t clk; const Ins *at; };
struct NdRec { uint8_t w; uint32_t var; };
struct State {
    std::map<uint64_t, ObjP> mem; std::vector<Thread> thr; int cur = 0;
    std::vector<E> pc; std::vector<uint64_t> model; std::vector<NdRec> nds;
    std::vector<uint64_t> freed;                   // bases of freed heap objects
    uint64_t next = 0x10000000, steps = 0; uint32_t forks = 0;
    // happens-before clocks (--races): per thread, per synchronisation object, and the last accesses of each shared word
    std::vector<std::array<uint32_t, 8>> vc; std::map<uint64_t, std::array<uint32_t, 8>> sync; std::shared_ptr<std::unordered_map<uint64_t, std::vector<Acc>>> shadow;
};

static const DataLayout *DL; static std::unique_ptr<Module> M;
static std::map<const GlobalValue *, uint64_t> gaddr; static std::unordered_map<uint64_t, FuncI *> faddr;
static std::unordered_map<const Function *, FuncI *> finfo;
static std::vector<State *> work; static std::map<uint64_t, ObjP> tlsinit;
static uint64_t n_paths, n_instr, n_infeasible, n_assert_q, n_asserts, n_forks, n_conv; static uint64_t maxsteps = 20000000; static double tlimit = 800; static uint64_t maxviol = 6;
static std::map<std::string, uint64_t> covers;
static std::chrono::steady_clock::time_point T0;
static bool incomplete; static std::string incomplete_why; static bool opt_nsw = false; static std::string opt_races; static uint64_t max_paths = ~0ULL;
struct Viol { std::string kind, msg, where, stack; std::vector<std::pair<uint8_t, uint64_t>> nd; bool uninit; uint64_t steps; };
static std::vector<Viol> viols; static std::set<std::string> violkeys;

static std::string loc(const Ins *i) {
    if (!i || !i->src) return "?";
    const DebugLoc &d = i->src->getDebugLoc();
    std::string fn = i->src->getFunction()->getName().str();
    if (!d) return fn;
    std::string file = d->getFilename().str(); size_t p = file.rfind('/'); if (p != std::string::npos) file = file.substr(p + 1);
    return fn + " (" + file + ":" + std::to_string(d.getLine()) + ")";
}

// ---------------------------------------------------------------- solver glue
static void slice(const std::vector<E> &pc, E q, std::vector<E> &out) {
    static std::vector<uint32_t> mark; static uint32_t ep = 0; ep++;
    if (mark.size() < X.varname.size() + 1) mark.resize(X.varname.size() + 1024, 0);
    for (uint32_t v : X.vars(q)) mark[v] = ep;
    std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
            const auto &vs = X.vars(pc[i]); bool hit = false;
            for (uint32_t v : vs) if (mark[v] == ep) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; for (uint32_t v : vs) mark[v] = ep; out.push_back(pc[i]); }
        }
    }
    out.push_back(q);
}
// may q hold under the path condition?  fills model m (complete, based on s.model) if so
static int may(State &s, E q, std::vector<uint64_t> &m) {
    if (X.isc(q)) { m = s.model; return X.cv(q) ? 1 : 0; }
    if (X.eval(q, s.model)) { m = s.model; return 1; }
    std::vector<E> cs; slice(s.pc, q, cs);
    std::vector<std::pair<uint32_t, uint64_t>> mm;
    int r = S.quick(cs, s.model, mm);
    if (r >= 0) S.bitdec++; else r = S.check(cs, mm);
    if (r < 0) { incomplete = true; incomplete_why = "solver returned unknown"; }
    if (r == 1) { m = s.model; for (auto &p : mm) { if (m.size() <= p.first) m.resize(p.first + 16, 0); m[p.first] = p.second; } }
    return r;
}
static void addpc(State &s, E c) {
    if (X.isc(c)) return;
    const Node nd = X.n[c];
    if (nd.op == O_AND && nd.w == 1) { addpc(s, nd.a); addpc(s, nd.b); return; }
    for (E e : s.pc) if (e == c) return;
    s.pc.push_back(c);
}

static void report(State &s, const std::vector<uint64_t> &m, const char *kind, const std::string &msg, E cond = 0) {
    Viol v; v.kind = kind; v.msg = msg; v.steps = s.steps;
    Thread &t = s.thr[s.cur];
    const Ins *at = t.st.empty() ? nullptr : &t.st.back().f->code[t.st.back().pc];
    v.where = loc(at);
    std::string st = v.where;
    for (size_t i = t.st.size(); i-- > 1;) st += " < " + loc(t.st[i].call);
    v.stack = st;
    for (auto &r : s.nds) v.nd.push_back({r.w, r.var < m.size() ? (m[r.var] & maskw(r.w)) : 0});
    v.uninit = false;
    for (E e : s.pc) for (uint32_t x : X.vars(e)) if (X.varuninit[x]) v.uninit = true;
    if (cond) for (uint32_t x : X.vars(cond)) if (X.varuninit[x]) v.uninit = true;
    std::string key = v.kind + "|" + v.msg + "|" + (v.kind == std::string("check") ? std::string() : v.where);
    if (!violkeys.insert(key).second) return;
    viols.push_back(v);
}

// ---------------------------------------------------------------- memory ops
static ObjP newobj(State &s, uint64_t size, const char *name, bool heap, bool zero) {
    ObjP o = std::make_shared<Obj>();
    o->base = s.next; o->size = size; o->heap = heap; o->name = name;
    o->d.assign(size, 0); o->kind.assign(size, zero ? 0 : 1);
    s.next += (size + 64 + 63) & ~63ULL;
    s.mem[o->base] = o;
    return o;
}
static Obj *findobj(State &s, uint64_t a, ObjP **slot = nullptr) {
    auto it = s.mem.upper_bound(a);
    if (it == s.mem.begin()) return nullptr;
    --it;
    Obj *o = it->second.get();
    if (a - o->base >= o->size + 32u) return nullptr;
    if (slot) *slot = &it->second;
    return o;
}
static Obj *wr(ObjP *p) { if (p->use_count() > 1) *p = std::make_shared<Obj>(**p); return p->get(); }

static std::string badaddr(State &s, uint64_t a, uint64_t n) {
    if (a < 4096) return "null pointer dereference";
    Obj *o = findobj(s, a);
    if (o && o->freed) return "access to a freed block";
    char b[120];
    if (o) { snprintf(b, 120, "access outside a block (offset %lld, %llu bytes, block of %u bytes)", (long long)(a - o->base), (unsigned long long)n, o->size); return b; }
    return "access through an invalid pointer";
}
static E byteE(Obj *o, uint32_t off) {
    if (o->kind[off] == 0) return X.cst(8, o->d[off]);
    if (o->kind[off] == 1) {
        E e = X.var(8, "uninit" + std::to_string(X.varname.size()), true);
        o->cells[off] = Cell{1, e}; o->kind[off] = 2; return e;
    }
    auto it = o->cells.upper_bound(off); --it;
    return X.extract(it->second.e, (off - it->first) * 8, 8);
}
// split any cell overlapping [off, off+n) into bytes and drop the covered ones
static void unlink_cells(Obj *o, uint32_t off, uint32_t n) {
    if (o->cells.empty()) return;
    auto it = o->cells.upper_bound(off);
    if (it != o->cells.begin()) --it;
    while (it != o->cells.end() && it->first < off + n) {
        uint32_t st = it->first; Cell c = it->second;
        if (st + c.n <= off) { ++it; continue; }
        it = o->cells.erase(it);
        for (uint32_t i = 0; i < c.n; i++) if (st + i < off || st + i >= off + n) o->cells[st + i] = Cell{1, X.extract(c.e, i * 8, 8)};
        it = o->cells.lower_bound(st + c.n);
    }
}
static V loadmem(ObjP *op, uint32_t off, uint32_t n) {
    Obj *o = op->get();
    bool conc = true; bool un = false;
    for (uint32_t i = 0; i < n; i++) { if (o->kind[off + i]) conc = false; if (o->kind[off + i] == 1) un = true; }
    if (conc) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return cv(v); }
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.n == n && o->kind[off] == 2) return fromE(it->second.e);
    if (un) {
        o = wr(op);
        bool all = true; for (uint32_t i = 0; i < n; i++) if (o->kind[off + i] != 1) all = false;
        if (all) { E e = X.var(8 * n, "uninit" + std::to_string(X.varname.size()), true); o->cells[off] = Cell{n, e}; for (uint32_t i = 0; i < n; i++) o->kind[off + i] = 2; return fromE(e); }
    }
    E e = byteE(o, off + n - 1);
    for (uint32_t i = n - 1; i-- > 0;) e = X.concat(e, byteE(o, off + i));
    return fromE(e);
}
static void storemem(ObjP *op, uint32_t off, uint32_t n, const V &v) {
    Obj *o = wr(op);
    unlink_cells(o, off, n);
    if (!v.e) { memcpy(&o->d[off], &v.v, n); memset(&o->kind[off], 0, n); return; }
    memset(&o->kind[off], 2, n);
    o->cells[off] = Cell{n, v.e};
}
static void copymem(State &s, ObjP *dp, uint32_t doff, ObjP *sp, uint32_t soff, uint32_t n) {
    if (!n) return;
    ObjP src = *sp;                                // keep a stable copy of the source
    Obj tmp; if (dp == sp) { tmp = *src; }
    const Obj *so = dp == sp ? &tmp : src.get();
    Obj *o = wr(dp);
    unlink_cells(o, doff, n);
    memcpy(&o->d[doff], &so->d[soff], n);
    memcpy(&o->kind[doff], &so->kind[soff], n);
    auto it = so->cells.upper_bound(soff); if (it != so->cells.begin()) --it;
    for (; it != so->cells.end() && it->first < soff + n; ++it) {
        if (it->first + it->second.n <= soff) continue;
        if (it->first >= soff && it->first + it->second.n <= soff + n) o->cells[doff + it->first - soff] = it->second;
        else for (uint32_t i = 0; i < it->second.n; i++) {
            uint32_t p = it->first + i;
            if (p >= soff && p < soff + n) o->cells[doff + p - soff] = Cell{1, X.extract(it->second.e, i * 8, 8)};
        }
    }
}

// ---------------------------------------------------------------- translation
static uint64_t evalconst(const Constant *c, bool &undef);
static uint64_t gaddr_of(const GlobalValue *g) {
    if (auto *a = dyn_cast<GlobalAlias>(g)) { bool u; return evalconst(a->getAliasee(), u); }
    auto it = gaddr.find(g); if (it == gaddr.end()) die("address of " + g->getName().str());
    return it->second;
}
static uint64_t evalconst(const Constant *c, bool &undef) {
    undef = false;
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) die("wide integer constant"); return i->getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) { undef = true; return 0; }
    if (auto *g = dyn_cast<GlobalValue>(c)) return gaddr_of(g);
    if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto *x = dyn_cast<ConstantExpr>(c)) {
        bool u;
        if (auto *gep = dyn_cast<GEPOperator>(x)) {
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) die("gep constant");
            return evalconst(cast<Constant>(gep->getPointerOperand()), u) + off.getZExtValue();
        }
        switch (x->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalconst(x->getOperand(0), u);
        case Instruction::Trunc: return evalconst(x->getOperand(0), u) & maskw(x->getType()->getIntegerBitWidth());
        case Instruction::Sub: return evalconst(x->getOperand(0), u) - evalconst(x->getOperand(1), u);
        case Instruction::Add: return evalconst(x->getOperand(0), u) + evalconst(x->getOperand(1), u);
        default: die("constant expression");
        }
    }
    die("constant");
}
static void flat(Type *t, uint32_t off, std::vector<Fld> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint32_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); return; }
    if (t->isVoidTy()) return;
    if (t->isPointerTy()) { out.push_back({off, 8, 64}); return; }
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("wide integer"); out.push_back({off, (uint8_t)((w + 7) / 8), (uint8_t)w}); return; }
    if (t->isDoubleTy()) { out.push_back({off, 8, 64}); return; }
    if (t->isFloatTy()) { out.push_back({off, 4, 32}); return; }
    std::string s; raw_string_ostream os(s); t->print(os); die("type " + os.str());
}
static void flatconst(const Constant *c, Type *t, std::vector<Opd> &out) {
    if (t->isStructTy() || t->isArrayTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            flatconst(c->getAggregateElement(i), et, out);
        }
        return;
    }
    Opd o; bool u; o.k = evalconst(c, u); o.undef = u; o.w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : 64; out.push_back(o);
}
static void initmem(Obj *o, const Constant *c, uint32_t off) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;   // already zero
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initmem(o, c->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint32_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initmem(o, c->getAggregateElement(i), off + i * es); return; }
    bool u; uint64_t v = evalconst(c, u); uint32_t n = DL->getTypeStoreSize(t); memcpy(&o->d[off], &v, n);
}

enum Intr { X_ND, X_ASSUME, X_CHECK, X_COVER, X_MALLOC, X_CALLOC, X_FREE, X_REALLOC, X_ERRNO, X_ASSERTFAIL, X_ABORT, X_THREAD, X_SWITCH,
    X_STOP, X_MEMCPY, X_MEMSET, X_NOP, X_VASTART, X_VACOPY, X_OVF, X_MINMAX, X_ABS, X_EXPECT, X_OBJSIZE, X_TRACE, X_PARK, X_BLOCKSIZE, X_BSWAP, X_CTZ, X_FAIL, X_CONC, X_CTPOP, X_CTLZ, X_FSH, X_TLS, X_SETJMP, X_LONGJMP, X_SYMB, X_ACQ, X_REL, X_FILLS };
static std::map<std::string, int> intrtab = {
    {"sx_nd", X_ND}, {"sx_assume", X_ASSUME}, {"sx_check", X_CHECK}, {"sx_cover", X_COVER}, {"sx_malloc", X_MALLOC}, {"sx_calloc", X_CALLOC}, {"sx_free", X_FREE}, {"__sigsetjmp", X_SETJMP}, {"_setjmp", X_SETJMP}, {"setjmp", X_SETJMP}, {"sx_longjmp", X_LONGJMP},
    {"sx_realloc", X_REALLOC}, {"__errno_location", X_ERRNO}, {"__assert_fail", X_ASSERTFAIL}, {"abort", X_ABORT}, {"sx_thread", X_THREAD}, {"sx_switch", X_SWITCH},
    {"sx_stop", X_STOP}, {"exit", X_STOP}, {"_exit", X_STOP}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"sx_trace", X_TRACE}, {"sx_fail", X_FAIL}, {"sx_concrete", X_CONC}, {"sx_symbolic", X_SYMB}, {"sx_acquire", X_ACQ}, {"sx_release", X_REL}, {"sx_fills", X_FILLS} };
static int intrinsic(const Function *f) {
    StringRef n = f->getName();
    auto it = intrtab.find(n.str());
    if (it != intrtab.end() && f->isDeclaration()) return it->second;
    if (!n.starts_with("llvm.")) return -1;
    if (n.starts_with("llvm.memcpy.") || n.starts_with("llvm.memmove.")) return X_MEMCPY;
    if (n.starts_with("llvm.memset.")) return X_MEMSET;
    if (n.starts_with("llvm.dbg.") || n.starts_with("llvm.lifetime.") || n.starts_with("llvm.va_end") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.experimental.noalias")) return X_NOP;
    if (n.starts_with("llvm.va_start")) return X_VASTART;
    if (n.starts_with("llvm.va_copy")) return X_VACOPY;
    if (n.starts_with("llvm.expect")) return X_EXPECT;
    if (n.contains(".with.overflow")) return X_OVF;
    if (n.starts_with("llvm.umax") || n.starts_with("llvm.umin") || n.starts_with("llvm.smax") || n.starts_with("llvm.smin")) return X_MINMAX;
    if (n.starts_with("llvm.abs")) return X_ABS;
    if (n.starts_with("llvm.objectsize")) return X_OBJSIZE;
    if (n.starts_with("llvm.stacksave")) return X_EXPECT + 1000;
    if (n.starts_with("llvm.bswap")) return X_BSWAP;
    if (n.starts_with("llvm.threadlocal.address")) return X_TLS;
    if (n.starts_with("llvm.cttz")) return X_CTZ;
    if (n.starts_with("llvm.ctpop")) return X_CTPOP;
    if (n.starts_with("llvm.ctlz")) return X_CTLZ;
    if (n.starts_with("llvm.fsh")) return X_FSH;
    if (n.starts_with("llvm.trap")) return X_ABORT;
    return -1;
}

static unsigned tw(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) die("wide integer"); return t->getIntegerBitWidth(); } if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; die("scalar type"); }

static int sideblock(FuncI *fi, int b);
static void translate(FuncI *fi) {
    const Function *f = fi->f; fi->ready = true;
    std::unordered_map<const Value *, std::pair<int32_t, uint32_t>> slot;
    uint32_t ns = 0;
    auto alloc = [&](const Value *v) { std::vector<Fld> fl; flat(v->getType(), 0, fl); slot[v] = {(int32_t)ns, (uint32_t)fl.size()}; ns += fl.size(); for (auto &q : fl) fi->slotw.push_back(q.w); return slot[v]; };
    for (auto &a : f->args()) { auto p = alloc(&a); fi->args.push_back(p); }
    std::unordered_map<const BasicBlock *, int> bid; int nb = 0;
    for (auto &b : *f) { bid[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy() && !i.getType()->isMetadataTy()) alloc(&i); }
    fi->nslots = ns; fi->blk.resize(nb);
    auto opds = [&](const Value *v) { std::vector<Opd> r; if (auto *c = dyn_cast<Constant>(v)) { flatconst(c, v->getType(), r); return r; }
        auto it = slot.find(v); if (it == slot.end()) die("operand"); for (uint32_t i = 0; i < it->second.second; i++) { Opd o; o.slot = it->second.first + i; r.push_back(o); } return r; };
    auto opd = [&](const Value *v) { auto r = opds(v); if (r.size() != 1) die("aggregate operand"); return r[0]; };
    for (auto &b : *f) {
        Blk &B = fi->blk[bid[&b]]; B.start = fi->code.size();
        for (auto &i : b) {
            if (auto *phi = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) {
                    int p = bid[phi->getIncomingBlock(k)];
                    auto it = std::find_if(B.phis.begin(), B.phis.end(), [&](auto &x) { return x.first == p; });
                    if (it == B.phis.end()) { B.phis.push_back({p, {}}); it = B.phis.end() - 1; }
                    bool dup = false; for (auto &tp : it->second) if (std::get<0>(tp) == slot[phi].first) dup = true;
                    if (!dup) it->second.push_back({slot[phi].first, slot[phi].second, opds(phi->getIncomingValue(k))});
                }
                continue;
            }
            Ins x; x.src = &i; x.op = I_NOP;
            if (slot.count(&i)) { x.dst = slot[&i].first; x.n = slot[&i].second; }
            switch (i.getOpcode()) {
            case Instruction::Add: x.bop = O_ADD; goto bin; case Instruction::Sub: x.bop = O_SUB; goto bin; case Instruction::Mul: x.bop = O_MUL; goto bin;
            case Instruction::UDiv: x.bop = O_UDIV; goto bin; case Instruction::SDiv: x.bop = O_SDIV; goto bin; case Instruction::URem: x.bop = O_UREM; goto bin; case Instruction::SRem: x.bop = O_SREM; goto bin;
            case Instruction::And: x.bop = O_AND; goto bin; case Instruction::Or: x.bop = O_OR; goto bin; case Instruction::Xor: x.bop = O_XOR; goto bin;
            case Instruction::Shl: x.bop = O_SHL; goto bin; case Instruction::LShr: x.bop = O_LSHR; goto bin; case Instruction::AShr: x.bop = O_ASHR; goto bin;
            bin: x.op = I_BIN; x.w = tw(i.getType()); x.o = {opd(i.getOperand(0)), opd(i.getOperand(1))};
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) x.nsw = ob->hasNoSignedWrap();
                break;
            case Instruction::ICmp: {
                auto *c = cast<ICmpInst>(&i); x.op = I_CMP; x.w = tw(i.getOperand(0)->getType()); x.o = {opd(i.getOperand(0)), opd(i.getOperand(1))};
                switch (c->getPredicate()) {
                case CmpInst::ICMP_EQ: x.bop = O_EQ; break; case CmpInst::ICMP_NE: x.bop = O_EQ; x.neg = true; break;
                case CmpInst::ICMP_ULT: x.bop = O_ULT; break; case CmpInst::ICMP_ULE: x.bop = O_ULE; break;
                case CmpInst::ICMP_UGT: x.bop = O_ULT; x.swp = true; break; case CmpInst::ICMP_UGE: x.bop = O_ULE; x.swp = true; break;
                case CmpInst::ICMP_SLT: x.bop = O_SLT; break; case CmpInst::ICMP_SLE: x.bop = O_SLE; break;
                case CmpInst::ICMP_SGT: x.bop = O_SLT; x.swp = true; break; case CmpInst::ICMP_SGE: x.bop = O_SLE; x.swp = true; break;
                default: die("icmp");
                }
                if (x.swp) std::swap(x.o[0], x.o[1]);
                break; }
            case Instruction::Load: x.op = I_LOAD; x.neg = cast<LoadInst>(i).isAtomic(); x.o = {opd(i.getOperand(0))}; flat(i.getType(), 0, x.f); break;
            case Instruction::Store: x.op = I_STORE; x.neg = cast<StoreInst>(i).isAtomic(); x.o = {opd(i.getOperand(1))}; for (auto &q : opds(i.getOperand(0))) x.o.push_back(q); flat(i.getOperand(0)->getType(), 0, x.f); break;
            case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); x.op = I_ALLOCA; x.k = DL->getTypeAllocSize(a->getAllocatedType()); x.o = {opd(a->getArraySize())}; x.w = tw(a->getArraySize()->getType()); break; }
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(&i); x.op = I_GEP; x.o = {opd(g->getPointerOperand())};
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *st = it.getStructTypeOrNull()) { x.k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) { x.k += (uint64_t)ci->getSExtValue() * sz; continue; }
                    x.o.push_back(opd(ix)); x.scale.push_back({(uint8_t)tw(ix->getType()), sz});
                }
                break; }
            case Instruction::Br: { auto *br = cast<BranchInst>(&i); if (br->isConditional()) { x.op = I_CBR; x.o = {opd(br->getCondition())}; x.tgt = {bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; } else { x.op = I_BR; x.tgt = {bid[br->getSuccessor(0)]}; } break; }
            case Instruction::Switch: { auto *sw = cast<SwitchInst>(&i); x.op = I_SWITCH; x.w = tw(sw->getCondition()->getType()); x.o = {opd(sw->getCondition())}; for (auto &c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.tgt.push_back(bid[c.getCaseSuccessor()]); } x.tgt.push_back(bid[sw->getDefaultDest()]); break; }
            case Instruction::Ret: x.op = I_RET; if (auto *rv = cast<ReturnInst>(&i)->getReturnValue()) x.o = opds(rv); break;
            case Instruction::Unreachable: x.op = I_UNREACH; break;
            case Instruction::Select: x.op = I_SEL; x.w = 0; x.o = {opd(i.getOperand(0))}; for (auto &q : opds(i.getOperand(1))) x.o.push_back(q); for (auto &q : opds(i.getOperand(2))) x.o.push_back(q); flat(i.getType(), 0, x.f); break;
            case Instruction::ZExt: x.op = I_ZEXT; goto cast; case Instruction::SExt: x.op = I_SEXT; goto cast; case Instruction::Trunc: x.op = I_TRUNC; goto cast;
            cast: x.w = tw(i.getOperand(0)->getType()); x.w2 = tw(i.getType()); x.o = {opd(i.getOperand(0))}; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned a = tw(i.getOperand(0)->getType()), c2 = tw(i.getType()); x.w = a; x.w2 = c2; x.o = {opd(i.getOperand(0))}; x.op = a == c2 ? I_MOVE : a < c2 ? I_ZEXT : I_TRUNC; break; }
            case Instruction::BitCast: x.op = I_MOVE; x.w = x.w2 = tw(i.getType()); x.o = {opd(i.getOperand(0))}; break;
            case Instruction::Freeze: x.op = I_MOVE; x.w = x.w2 = tw(i.getType()); x.o = {opd(i.getOperand(0))}; break;
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                ArrayRef<unsigned> idx = i.getOpcode() == Instruction::ExtractValue ? cast<ExtractValueInst>(&i)->getIndices() : cast<InsertValueInst>(&i)->getIndices();
                Type *t = i.getOperand(0)->getType(); uint32_t base = 0;
                for (unsigned ix : idx) { for (unsigned k = 0; k < ix; k++) { std::vector<Fld> fl; flat(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), 0, fl); base += fl.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
                x.k = base; x.o = opds(i.getOperand(0));
                if (i.getOpcode() == Instruction::InsertValue) { x.op = I_INSV; x.cases = {x.o.size()}; for (auto &q : opds(i.getOperand(1))) x.o.push_back(q); } else x.op = I_EXTRV;
                break; }
            case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(&i); x.op = I_RMW; x.w = tw(i.getType()); x.o = {opd(a->getPointerOperand()), opd(a->getValOperand())};
                switch (a->getOperation()) { case AtomicRMWInst::Xchg: x.bop = O_NONE; break; case AtomicRMWInst::Add: x.bop = O_ADD; break; case AtomicRMWInst::Sub: x.bop = O_SUB; break; case AtomicRMWInst::And: x.bop = O_AND; break; case AtomicRMWInst::Or: x.bop = O_OR; break; case AtomicRMWInst::Xor: x.bop = O_XOR; break; default: die("atomicrmw"); } break; }
            case Instruction::AtomicCmpXchg: { auto *a = cast<AtomicCmpXchgInst>(&i); x.op = I_CAS; x.w = tw(a->getNewValOperand()->getType()); x.o = {opd(a->getPointerOperand()), opd(a->getCompareOperand()), opd(a->getNewValOperand())}; break; }
            case Instruction::Fence: x.op = I_NOP; break;
            case Instruction::Call: {
                auto *c = cast<CallInst>(&i);
                if (c->isInlineAsm()) { auto *ia = cast<InlineAsm>(c->getCalledOperand()); if (ia->getAsmString().empty() && i.getType()->isVoidTy()) { x.op = I_NOP; break; } die("inline assembly in " + fi->name); }
                Function *cf = c->getCalledFunction();
                if (!cf) if (auto *k = dyn_cast<Constant>(c->getCalledOperand())) cf = dyn_cast<Function>(k->stripPointerCasts());
                if (cf && (cf->getName().starts_with("llvm.dbg") || cf->getName().starts_with("llvm.lifetime"))) { x.op = I_NOP; break; }
                x.op = I_CALL;
                if (cf) { x.callee = finfo[cf]; if (!x.callee) die("callee " + cf->getName().str()); x.o.push_back(Opd()); } else x.o.push_back(opd(c->getCalledOperand()));
                for (unsigned k = 0; k < c->arg_size(); k++) {
                    Value *a = c->getArgOperand(k);
                    if (a->getType()->isMetadataTy()) continue;
                    if (c->isByValArgument(k)) { x.cases.push_back(((uint64_t)k << 32) | DL->getTypeAllocSize(c->getParamByValType(k))); }
                    auto q = opds(a); std::vector<Fld> fl; flat(a->getType(), 0, fl);
                    x.an.push_back(q.size());
                    for (size_t z = 0; z < q.size(); z++) { x.o.push_back(q[z]); x.aw.push_back(fl[z].w); }
                }
                flat(i.getType(), 0, x.f);
                break; }
            default: { std::string s; raw_string_ostream os(s); i.print(os); die("instruction " + os.str()); }
            }
            if (x.op != I_NOP) fi->code.push_back(std::move(x));
        }
    }
    // if-conversion: branches whose sides can be executed under a condition and meet again
    for (auto &x : fi->code) if (x.op == I_CBR) {
        int a = x.tgt[0], b = x.tgt[1], ja = sideblock(fi, a), jb = sideblock(fi, b);
        if (a == b) continue;
        if (ja >= 0 && ja == b) x.w2 = 1; else if (jb >= 0 && jb == a) x.w2 = 2; else if (ja >= 0 && ja == jb) x.w2 = 3;
    }
}

// Can block b be executed under a condition (only moves, arithmetic that cannot fail, loads and stores, then
// a jump)?  Returns the target of the jump, or -1.
static int sideblock(FuncI *fi, int b) {
    Blk &B = fi->blk[b];
    if (!B.phis.empty()) return -1;
    for (uint32_t pc = B.start; pc < fi->code.size() && pc < B.start + 24; pc++) {
        const Ins &I = fi->code[pc];
        switch (I.op) {
        case I_BR: return I.tgt[0];
        case I_BIN:
            if (I.bop >= O_UDIV && I.bop <= O_SREM) return -1;
            if (I.bop >= O_SHL && I.bop <= O_ASHR && (I.o[1].slot >= 0 || I.o[1].undef || I.o[1].k >= I.w)) return -1;
            if (I.nsw && opt_nsw) return -1;
            break;
        case I_CMP: case I_ZEXT: case I_SEXT: case I_TRUNC: case I_MOVE: case I_SEL: case I_GEP: break;
        case I_LOAD: case I_STORE: if (I.f.size() != 1 || I.f[0].w != I.f[0].bytes * 8) return -1; break;
        default: return -1;
        }
    }
    return -1;
}

// ---------------------------------------------------------------- execution
enum { K_OK, K_END, K_RETRY };
static inline V get(const Frame &f, const Opd &o, unsigned w = 64) {
    if (o.slot >= 0) return f.r[o.slot];
    if (o.undef) { V v; v.e = X.var(o.w, "undef" + std::to_string(X.varname.size()), true); return v; }
    return cv(o.k);
}
// decide condition c in state s: returns 0/1, and queues the other feasible side as a new state with the
// other decision recorded (the instruction is re-executed there, its condition then being decided)
static int decide(State &s, E c) {
    if (X.isc(c)) return X.cv(c);
    { std::unordered_map<E, E> memo; c = X.subst(c, s.pc, memo); if (X.isc(c)) return X.cv(c); }
    // already decided on this path?
    E nc = X.lnot(c);
    for (E e : s.pc) { if (e == c) return 1; if (e == nc) return 0; }
    int me = X.eval(c, s.model) ? 1 : 0;
    E other = me ? nc : c;
    std::vector<uint64_t> m;
    int r = may(s, other, m);
    if (r == 1) {
        State *t = new State(s); t->model = m; addpc(*t, other); t->forks++; work.push_back(t); n_forks++;
        addpc(s, me ? c : nc);
    } else if (r == 0) {
        n_infeasible++;
    }
    return me;
}
// concretise a value: fork over all feasible values (bounded)
static uint64_t concretise(State &s, V v, unsigned w, const char *what) {
    if (!v.e) return v.v;
    E e = v.e;
    { std::unordered_map<E, E> memo; e = X.subst(e, s.pc, memo); if (X.isc(e)) return X.cv(e); }
    uint64_t a = X.eval(e, s.model);
    E eq = X.cmp(O_EQ, e, X.cst(w, a));
    std::vector<uint64_t> m;
    if (may(s, X.lnot(eq), m) == 1) {
        State *t = new State(s); t->model = m; addpc(*t, X.lnot(eq)); t->forks++;
        if (t->forks > 4000) die(std::string("too many values for ") + what);
        work.push_back(t); n_forks++;
        addpc(s, eq);
    }
    return a;
}
// a factor or divisor that is one of a few constants: one path for each, far easier to solve
static V pick(State &s, Frame &f, const Opd &o, V v, unsigned w) {
    if (!v.e) return v;
    std::unordered_map<E, E> memo; E e = X.subst(v.e, s.pc, memo);
    while (X.n[e].op == O_ITE && X.leaves(e, 8)) { const Node x = X.n[e]; e = decide(s, x.a) ? x.b : x.c; }
    v = fromE(e); if (o.slot >= 0) f.r[o.slot] = v;
    return v;
}
// an assertion: report if ~c possible; continue with c.  Returns false if the path cannot continue.
static bool require(State &s, E c, const char *kind, const std::string &msg) {
    n_asserts++;
    if (X.isc(c)) { if (!X.cv(c)) { report(s, s.model, kind, msg); return false; } return true; }
    n_assert_q++;
    { std::unordered_map<E, E> memo; c = X.subst(c, s.pc, memo); }
    std::vector<uint64_t> m;
    if (may(s, X.lnot(c), m) == 1) {
        report(s, m, kind, msg, c);
        if (may(s, c, m) != 1) return false;
        s.model = m; addpc(s, c);
    }
    return true;
}
// ---------------------------------------------------------------- data races (happens-before, --races=<source directory>)
typedef std::array<uint32_t, 8> VC;
static VC &clk(State &s, int t) { while (s.vc.size() <= (size_t)t) { VC v{}; v[s.vc.size()] = 1; s.vc.push_back(v); } return s.vc[t]; }
static void hb_join(VC &a, const VC &b) { for (int i = 0; i < 8; i++) a[i] = std::max(a[i], b[i]); }
static void hb_acquire(State &s, uint64_t x) { auto it = s.sync.find(x); if (it != s.sync.end()) hb_join(clk(s, s.cur), it->second); }
static void hb_release(State &s, uint64_t x) { VC &c = clk(s, s.cur); auto it = s.sync.emplace(x, VC{}).first; hb_join(it->second, c); c[s.cur]++; }
static void race(State &s, Obj *o, uint32_t off, uint32_t n, bool write, bool atomic, bool all = false) {
    if (opt_races.empty() || s.thr.size() < 2 || (!o->heap && !o->shared)) return;
    Thread &t = s.thr[s.cur]; if (t.st.empty()) return;
    if (!all && !t.st.back().f->lib) return;
    const Ins *at = nullptr; for (size_t i = t.st.size(); i-- > 0;) if (t.st[i].f->lib) { at = &t.st[i].f->code[t.st[i].pc]; break; }
    if (!at) return;
    if (!s.shadow) s.shadow = std::make_shared<std::unordered_map<uint64_t, std::vector<Acc>>>();
    else if (s.shadow.use_count() > 1) s.shadow = std::make_shared<std::unordered_map<uint64_t, std::vector<Acc>>>(*s.shadow);
    VC &me = clk(s, s.cur); uint64_t a = o->base + off, end = a + n;
    for (uint64_t g = a & ~7ULL; g < end; g += 8) {
        uint8_t mask = 0; for (int b = 0; b < 8; b++) if (g + b >= a && g + b < end) mask |= 1 << b;
        auto &v = (*s.shadow)[g];
        for (size_t i = 0; i < v.size();) {
            Acc &c = v[i];
            if ((c.mask & mask) && c.tid != s.cur && (c.write || write) && !(c.atomic && atomic) && me[c.tid] < c.clk) {
                report(s, s.model, "race", std::string("data race: ") + (write ? "write" : "read") + " not ordered with a " + (c.write ? "write" : "read") + " by another thread at " + loc(c.at) + (o->shared ? std::string(" of ") + o->name : ""));
                c.clk = 0; }        // report once, go on
            if (c.tid == s.cur && (c.mask & ~mask) == 0 && c.write <= (uint8_t)write && c.atomic >= (uint8_t)atomic) v.erase(v.begin() + i); else i++;
        }
        v.push_back({(uint8_t)s.cur, mask, (uint8_t)write, (uint8_t)atomic, me[s.cur], at});
    }
}
static bool resolve(State &s, V a, uint32_t n, bool write, ObjP *&op, uint32_t &off, bool atomic = false) {
    uint64_t addr;
    if (a.e) {
        // can it leave the block the current model points into?
        uint64_t cur = X.eval(a.e, s.model); Obj *o = findobj(s, cur);
        if (o && !o->freed && cur >= o->base && cur + n <= o->base + o->size) {
            E rel = X.bin(O_SUB, a.e, X.cst(64, o->base)); E in = X.cmp(O_ULE, rel, X.cst(64, o->size - n));
            // may it point elsewhere, to something that is no block?  decide "inside this block" first
            if (!decide(s, in)) { /* other side explored on its own */ }
        }
        addr = concretise(s, a, 64, "an address");
    } else addr = a.v;
    Obj *o = findobj(s, addr, &op);
    if (!o || o->freed || addr + n > o->base + o->size || (write && o->ro)) {
        report(s, s.model, "memory", write && o && o->ro ? "write to read-only data" : badaddr(s, addr, n));
        return false;
    }
    off = addr - o->base; if (!opt_races.empty()) { if (atomic) hb_acquire(s, addr); race(s, o, off, n, write, atomic); if (atomic) hb_release(s, addr); } return true;
}
static V binop(Op op, unsigned w, const V &a, const V &b) {
    if (!a.e && !b.e) return cv(foldop(op, w, a.v, b.v));
    return fromE(X.bin(op, toE(a, w), toE(b, w)));
}
static void jump(Frame &f, int to) {
    Blk &B = f.f->blk[to];
    if (!B.phis.empty()) {
        for (auto &p : B.phis) if (p.first == f.blk) {
            static std::vector<V> tmp; tmp.clear();
            for (auto &m : p.second) for (auto &o : std::get<2>(m)) tmp.push_back(get(f, o));
            size_t k = 0; for (auto &m : p.second) for (uint32_t i = 0; i < std::get<1>(m); i++) f.r[std::get<0>(m) + i] = tmp[k++];
            break;
        }
    }
    f.blk = to; f.pc = B.start;
}
static std::string cstr(State &s, V p) {
    std::string r; if (p.e) return "?";
    for (int i = 0; i < 400; i++) { ObjP *op; Obj *o = findobj(s, p.v + i, &op); if (!o || p.v + i >= o->base + o->size || o->kind[p.v + i - o->base]) break; char c = o->d[p.v + i - o->base]; if (!c) break; r += c; }
    return r;
}
static void popframe(State &s, Thread &t) { for (uint64_t a : t.st.back().allocas) s.mem.erase(a); t.st.pop_back(); }

static bool pushcall(State &s, FuncI *fi, const std::vector<V> &args, const std::vector<uint8_t> &aw, const std::vector<uint32_t> &an, const Ins *call) {
    if (fi->f->isDeclaration()) die("call of an unmodelled external function: " + fi->name);
    if (!fi->bad.empty()) die(fi->bad);
    if (!fi->ready) { try { translate(fi); } catch (Unsupported &u) { fi->bad = u.m; throw; } }
    fi->calls++;
    Thread &t = s.thr[s.cur];
    if (t.st.size() > 200) { report(s, s.model, "termination", "recursion deeper than 200 frames"); return false; }
    Frame f; f.f = fi; f.blk = 0; f.r.resize(fi->nslots); f.call = call;
    size_t k = 0, i = 0;
    for (; i < fi->args.size(); i++) { if (i >= an.size()) { break; } for (uint32_t z = 0; z < fi->args[i].second && z < an[i]; z++) f.r[fi->args[i].first + z] = args[k + z]; k += an[i]; }
    for (; k < args.size(); k++) f.va.push_back({args[k], aw[k]});
    t.st.push_back(std::move(f));
    t.st.back().pc = fi->blk[0].start;
    return true;
}
static void setret(Frame &f, const Ins &I, uint64_t v) { if (I.dst >= 0) f.r[I.dst] = cv(v); }

static int do_free(State &s, V p) {
    uint64_t a = p.e ? concretise(s, p, 64, "free") : p.v;
    if (!a) return K_OK;
    ObjP *op; Obj *o = findobj(s, a, &op);
    if (!o || o->base != a || !o->heap) { report(s, s.model, "memory", "free of a pointer that is not a heap block"); return K_END; }
    if (o->freed) { report(s, s.model, "memory", "double free"); return K_END; }
    if (!opt_races.empty()) race(s, o, 0, o->size, true, false, true);
    o = wr(op); o->freed = true; return K_OK;
}

static int callintr(State &s, const Ins &I, int id, std::vector<V> &a, FuncI *fi) {
    Thread &t = s.thr[s.cur]; Frame &f = t.st.back();
    switch (id) {
    case X_ND: {
        unsigned w = concretise(s, a[0], 32, "nd width"); if (w < 1 || w > 64) die("nd width");
        // the k-th value of width w is the same variable on every path (terms and solver answers are shared)
        static std::unordered_map<uint64_t, E> ndv; E &v = ndv[s.nds.size() * 65 + w];
        if (!v) v = X.var(w, "nd" + std::to_string(s.nds.size()), false);
        uint32_t id2 = X.n[v].a;
        s.nds.push_back({(uint8_t)w, id2}); f.r[I.dst] = fromE(X.zext(v, 64)); return K_OK; }
    case X_ASSUME: {
        E c = X.lnot(X.cmp(O_EQ, toE(a[0], 32), X.cst(32, 0)));
        if (X.isc(c)) return X.cv(c) ? K_OK : K_END;
        std::vector<uint64_t> m; if (may(s, c, m) != 1) return K_END;
        s.model = m; addpc(s, c); return K_OK; }
    case X_CHECK: { E c = X.lnot(X.cmp(O_EQ, toE(a[0], 32), X.cst(32, 0))); return require(s, c, "check", cstr(s, a[1])) ? K_OK : K_END; }
    case X_FAIL: report(s, s.model, "check", cstr(s, a[0])); return K_END;
    case X_COVER: covers[cstr(s, a[0])]++; return K_OK;
    case X_FILLS: { uint64_t p = concretise(s, a[0], 64, "fills"), n = concretise(s, a[1], 64, "fills"); ObjP *op; Obj *o = findobj(s, p, &op); if (o && n && p + n <= o->base + o->size) race(s, o, p - o->base, n, true, false, true); return K_OK; }
    case X_SYMB: { V v = a[0]; if (v.e) { std::unordered_map<E, E> memo; v = fromE(X.subst(v.e, s.pc, memo)); } f.r[I.dst] = cv(v.e != 0); return K_OK; }
    case X_ACQ: if (!opt_races.empty()) hb_acquire(s, concretise(s, a[0], 64, "sx_acquire")); return K_OK;
    case X_REL: if (!opt_races.empty()) hb_release(s, concretise(s, a[0], 64, "sx_release")); return K_OK;
    case X_CONC: { unsigned w = 64; f.r[I.dst] = cv(concretise(s, a[0], w, "sx_concrete")); return K_OK; }
    case X_MALLOC: case X_CALLOC: {
        uint64_t n = concretise(s, a[0], 64, "allocation size"); if (id == X_CALLOC) n *= concretise(s, a[1], 64, "allocation size");
        if (n > (1 << 20)) { setret(f, I, 0); return K_OK; }
        ObjP o = newobj(s, n ? n : 1, "heap", true, id == X_CALLOC); if (!n) o->size = 0;
        setret(f, I, o->base); return K_OK; }
    case X_FREE: return do_free(s, a[0]);
    case X_REALLOC: {
        uint64_t p = concretise(s, a[0], 64, "realloc"), n = concretise(s, a[1], 64, "realloc size");
        ObjP o = newobj(s, n ? n : 1, "heap", true, false);
        if (p) { ObjP *op; Obj *q = findobj(s, p, &op); if (!q || q->freed || q->base != p || !q->heap) { report(s, s.model, "memory", "realloc of a bad pointer"); return K_END; }
            ObjP src = *op; ObjP *dp = &s.mem[o->base]; o.reset(); copymem(s, dp, 0, op, 0, std::min<uint64_t>(n, q->size)); uint64_t nb = (*dp)->base; do_free(s, cv(p)); setret(f, I, nb); return K_OK; }
        setret(f, I, o->base); return K_OK; }
    case X_ERRNO: if (!t.err) { ObjP o = newobj(s, 4, "errno", false, true); t.err = o->base; } setret(f, I, t.err); return K_OK;
    case X_ASSERTFAIL: report(s, s.model, "assert", "assertion failed: " + cstr(s, a[0])); return K_END;
    case X_ABORT: report(s, s.model, "assert", "the process is aborted"); return K_END;
    case X_THREAD: {  // sx_thread(fn, arg) -> index
        Thread nt; uint64_t fn = concretise(s, a[0], 64, "thread function"); auto it = faddr.find(fn); if (it == faddr.end()) die("thread function");
        s.thr.push_back(nt); int me = s.cur, id2 = s.thr.size() - 1; s.cur = id2;
        if (!pushcall(s, it->second, {a[1]}, {64}, {1}, nullptr)) return K_END;
        s.cur = me; if (!opt_races.empty()) { VC c = clk(s, me); hb_join(clk(s, id2), c); clk(s, me)[me]++; } setret(s.thr[me].st.back(), I, id2); return K_OK; }
    case X_SWITCH: { uint64_t to = concretise(s, a[0], 32, "thread"); if (to >= s.thr.size() || s.thr[to].st.empty()) die("switch to a dead thread"); f.pc++; s.cur = to; return K_RETRY; }
    case X_TLS: {
        uint64_t g = a[0].v; if (s.cur == 0) { f.r[I.dst] = a[0]; return K_OK; }
        auto it = t.tls.find(g);
        if (it == t.tls.end()) { ObjP init = tlsinit[g]; if (!init) die("thread-local address"); ObjP o = newobj(s, init->size, init->name, false, true); o->d = init->d; it = t.tls.emplace(g, o->base).first; }
        setret(f, I, it->second); return K_OK; }
    case X_SETJMP: { Jmp j; j.buf = a[0].v; j.depth = t.st.size(); j.pc = f.pc; j.blk = f.blk; for (size_t i = 0; i < t.jmps.size();) if (t.jmps[i].buf == j.buf || t.jmps[i].depth > j.depth) t.jmps.erase(t.jmps.begin() + i); else i++; t.jmps.push_back(j); setret(f, I, 0); return K_OK; }
    case X_LONGJMP: {
        for (auto &j : t.jmps) if (j.buf == a[0].v && j.depth <= t.st.size()) {
            Jmp k = j; while (t.st.size() > k.depth) popframe(s, t);
            Frame &g = t.st.back(); g.pc = k.pc; g.blk = k.blk; const Ins &J = g.f->code[g.pc]; if (J.dst >= 0) g.r[J.dst] = cv(1); g.pc++; return K_RETRY; }
        die("longjmp without setjmp"); }
    case X_STOP: return K_END;
    case X_NOP: return K_OK;
    case X_EXPECT: f.r[I.dst] = a[0]; return K_OK;
    case X_EXPECT + 1000: setret(f, I, 0); return K_OK;
    case X_OBJSIZE: setret(f, I, ~0ULL); return K_OK;
    case X_TRACE: if (getenv("SYMX_TRACE")) { fprintf(stderr, "trace: %s %s\n", cstr(s, a[0]).c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string(a[1].v).c_str()); } return K_OK;
    case X_MEMCPY: {
        uint64_t n = concretise(s, a[2], 64, "memcpy size"); if (I.dst >= 0) f.r[I.dst] = a[0];
        if (!n) return K_OK;
        if (n > (1u << 20)) { report(s, s.model, "memory", "copy of more than 1 MiB"); return K_END; }
        ObjP *sp, *dp; uint32_t so, d0; if (!resolve(s, a[1], n, false, sp, so) || !resolve(s, a[0], n, true, dp, d0)) return K_END;
        copymem(s, dp, d0, sp, so, n); return K_OK; }
    case X_MEMSET: {
        uint64_t n = concretise(s, a[2], 64, "memset size"); if (I.dst >= 0) f.r[I.dst] = a[0];
        if (!n) return K_OK;
        if (n > (1u << 20)) { report(s, s.model, "memory", "fill of more than 1 MiB"); return K_END; }
        ObjP *dp; uint32_t d0; if (!resolve(s, a[0], n, true, dp, d0)) return K_END;
        Obj *o = wr(dp); unlink_cells(o, d0, n); memset(&o->kind[d0], 0, n);
        if (!a[1].e) memset(&o->d[d0], (uint8_t)a[1].v, n);
        else { E b = X.extract(toE(a[1], X.w(a[1].e)), 0, 8); for (uint32_t i = 0; i < n; i++) { o->kind[d0 + i] = 2; o->cells[d0 + i] = Cell{1, b}; } }
        return K_OK; }
    case X_VASTART: {
        ObjP area = newobj(s, f.va.size() * 8 + 8, "varargs", false, false); f.allocas.push_back(area->base);
        uint64_t ab = area->base; area.reset(); ObjP *ap = &s.mem[ab];
        for (size_t i = 0; i < f.va.size(); i++) { V v = f.va[i].first; if (v.e) v = fromE(X.zext(v.e, 64)); storemem(ap, i * 8, 8, v); }
        ObjP *op; uint32_t off; if (!resolve(s, a[0], 24, true, op, off)) return K_END;
        storemem(op, off, 4, cv(48)); storemem(op, off + 4, 4, cv(304)); storemem(op, off + 8, 8, cv(ab)); storemem(op, off + 16, 8, cv(0)); return K_OK; }
    case X_VACOPY: { ObjP *sp, *dp; uint32_t so, d0; if (!resolve(s, a[1], 24, false, sp, so) || !resolve(s, a[0], 24, true, dp, d0)) return K_END; copymem(s, dp, d0, sp, so, 24); return K_OK; }
    case X_OVF: {
        StringRef nm = fi->name; unsigned w = I.f[0].w; bool sg = nm.contains(".s"); Op op = nm.contains("add") ? O_ADD : nm.contains("sub") ? O_SUB : O_MUL;
        V r = binop(op, w, a[0], a[1]); f.r[I.dst] = r;
        E x = toE(a[0], w), y = toE(a[1], w), z = toE(r, w), o;
        E zero = X.cst(w, 0);
        if (op == O_ADD) o = sg ? X.bin(O_AND, X.cmp(O_EQ, X.cmp(O_SLT, x, zero), X.cmp(O_SLT, y, zero)), X.lnot(X.cmp(O_EQ, X.cmp(O_SLT, x, zero), X.cmp(O_SLT, z, zero)))) : X.cmp(O_ULT, z, x);
        else if (op == O_SUB) o = sg ? X.bin(O_AND, X.lnot(X.cmp(O_EQ, X.cmp(O_SLT, x, zero), X.cmp(O_SLT, y, zero))), X.lnot(X.cmp(O_EQ, X.cmp(O_SLT, x, zero), X.cmp(O_SLT, z, zero)))) : X.cmp(O_ULT, x, y);
        else { // mul: y != 0 && z / y != x   (signed: also MIN * -1)
            E d = X.bin(sg ? O_SDIV : O_UDIV, z, y); o = X.bin(O_AND, X.lnot(X.cmp(O_EQ, y, zero)), X.lnot(X.cmp(O_EQ, d, x)));
            if (sg) o = X.bin(O_OR, o, X.bin(O_AND, X.cmp(O_EQ, y, X.cst(w, ~0ULL)), X.cmp(O_EQ, x, X.cst(w, 1ULL << (w - 1))))); }
        f.r[I.dst + 1] = fromE(o); return K_OK; }
    case X_MINMAX: { StringRef nm = fi->name; unsigned w = I.f[0].w; bool sg = nm.contains(".s"), mx = nm.contains("max"); E x = toE(a[0], w), y = toE(a[1], w); E lt = X.cmp(sg ? O_SLT : O_ULT, x, y); f.r[I.dst] = fromE(mx ? X.ite(lt, y, x) : X.ite(lt, x, y)); return K_OK; }
    case X_ABS: { unsigned w = I.f[0].w; E x = toE(a[0], w); f.r[I.dst] = fromE(X.ite(X.cmp(O_SLT, x, X.cst(w, 0)), X.bin(O_SUB, X.cst(w, 0), x), x)); return K_OK; }
    case X_BSWAP: { unsigned w = I.f[0].w; E x = toE(a[0], w), r = X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(x, i, 8)); f.r[I.dst] = fromE(r); return K_OK; }
    case X_CTZ: { unsigned w = I.f[0].w; uint64_t v = concretise(s, a[0], w, "cttz"); unsigned i = 0; while (i < w && !((v >> i) & 1)) i++; setret(f, I, i); return K_OK; }
    case X_CTLZ: { unsigned w = I.f[0].w; uint64_t v = concretise(s, a[0], w, "ctlz"); unsigned i = 0; while (i < w && !((v >> (w - 1 - i)) & 1)) i++; setret(f, I, i); return K_OK; }
    case X_FSH: { unsigned w = I.f[0].w; bool r = fi->name.find("fshr") != std::string::npos; E n = X.bin(O_UREM, toE(a[2], w), X.cst(w, w)), x = toE(a[0], w), y = toE(a[1], w), m = X.bin(O_SUB, X.cst(w, w), n);
        E v = r ? X.bin(O_OR, X.bin(O_LSHR, y, n), X.bin(O_SHL, x, m)) : X.bin(O_OR, X.bin(O_SHL, x, n), X.bin(O_LSHR, y, m));
        f.r[I.dst] = fromE(X.ite(X.cmp(O_EQ, n, X.cst(w, 0)), r ? y : x, v)); return K_OK; }
    case X_CTPOP: { unsigned w = I.f[0].w; uint64_t v = concretise(s, a[0], w, "ctpop"); setret(f, I, __builtin_popcountll(v)); return K_OK; }
    }
    die("intrinsic " + fi->name);
}

static bool nsw_check(State &s, const Ins &I, const V &a, const V &b, const V &r) {
    unsigned w = I.w; E x = toE(a, w), y = toE(b, w), z = toE(r, w), zero = X.cst(w, 0), ok;
    E sx = X.cmp(O_SLT, x, zero), sy = X.cmp(O_SLT, y, zero), sz = X.cmp(O_SLT, z, zero);
    if (I.bop == O_ADD) ok = X.bin(O_OR, X.lnot(X.cmp(O_EQ, sx, sy)), X.cmp(O_EQ, sx, sz));
    else if (I.bop == O_SUB) ok = X.bin(O_OR, X.cmp(O_EQ, sx, sy), X.cmp(O_EQ, sx, sz));
    else if (I.bop == O_MUL && w <= 32) ok = X.cmp(O_EQ, X.sext(z, 2 * w), X.bin(O_MUL, X.sext(x, 2 * w), X.sext(y, 2 * w)));
    else if (I.bop == O_MUL) { // |x| bounds via division by a constant operand only
        if (X.isc(y) && X.cv(y) != 0 && X.cv(y) != ~0ULL) { int64_t k = (int64_t)X.cv(y); int64_t lo = k > 0 ? INT64_MIN / k : INT64_MAX / k, hi = k > 0 ? INT64_MAX / k : INT64_MIN / k; ok = X.bin(O_AND, X.cmp(O_SLE, X.cst(64, lo), x), X.cmp(O_SLE, x, X.cst(64, hi))); }
        else return true;
    } else return true;
    return require(s, ok, "overflow", "signed integer overflow");
}

struct Undo { uint64_t addr; uint32_t n; V old; };
// execute block b of frame f under condition c (a 1-bit term); false if it cannot be done
static bool runside(State &s, Frame &f, int b, E c, std::vector<Undo> &undo) {
    for (uint32_t pc = f.f->blk[b].start;; pc++) {
        const Ins &I = f.f->code[pc];
        n_instr++; s.steps++;
        switch (I.op) {
        case I_BR: return true;
        case I_BIN: f.r[I.dst] = binop(I.bop, I.w, get(f, I.o[0], I.w), get(f, I.o[1], I.w)); break;
        case I_CMP: { V x = get(f, I.o[0], I.w), y = get(f, I.o[1], I.w); E e = X.cmp(I.bop, toE(x, I.w), toE(y, I.w)); f.r[I.dst] = fromE(I.neg ? X.lnot(e) : e); break; }
        case I_ZEXT: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.zext(a.e, I.w2)) : cv(a.v); break; }
        case I_SEXT: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.sext(a.e, I.w2)) : cv((uint64_t)sxt(a.v, I.w) & maskw(I.w2)); break; }
        case I_TRUNC: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.extract(a.e, 0, I.w2)) : cv(a.v & maskw(I.w2)); break; }
        case I_MOVE: f.r[I.dst] = get(f, I.o[0], I.w); break;
        case I_SEL: {
            V k = get(f, I.o[0], 1); size_t n = I.f.size();
            for (size_t i = 0; i < n; i++) f.r[I.dst + i] = fromE(X.ite(toE(k, 1), toE(get(f, I.o[1 + i], I.f[i].w), I.f[i].w), toE(get(f, I.o[1 + n + i], I.f[i].w), I.f[i].w)));
            break; }
        case I_GEP: {
            V r = get(f, I.o[0]); if (r.e) return false; uint64_t k = r.v + I.k;
            for (size_t i = 0; i < I.scale.size(); i++) { V x = get(f, I.o[1 + i], I.scale[i].first); if (x.e) return false; k += (uint64_t)sxt(x.v, I.scale[i].first) * I.scale[i].second; }
            f.r[I.dst] = cv(k); break; }
        case I_LOAD: case I_STORE: {
            V a = get(f, I.o[0]); uint32_t n = I.f[0].bytes; ObjP *op; if (a.e) return false;
            Obj *o = findobj(s, a.v, &op); if (!o || o->freed || a.v < o->base || a.v + n > o->base + o->size || (I.op == I_STORE && o->ro)) return false;
            if (!opt_races.empty() && (o->heap || o->shared)) return false;
            uint32_t off = a.v - o->base; V old = loadmem(op, off, n);
            if (I.op == I_LOAD) { f.r[I.dst] = old; break; }
            if (I.o[1].slot < 0 && I.o[1].undef) return false;
            V nv = get(f, I.o[1], I.f[0].w);
            undo.push_back({a.v, n, old});
            storemem(op, off, n, fromE(X.ite(c, toE(nv, n * 8), toE(old, n * 8))));
            break; }
        default: return false;
        }
    }
}
static bool ifconvert(State &s, Frame &f, const Ins &I, E c) {
    E nc = X.lnot(c);
    for (E e : s.pc) if (e == c || e == nc) return false;
    int a = I.tgt[0], b = I.tgt[1], J = I.w2 == 1 ? b : I.w2 == 2 ? a : f.f->code.size() ? sideblock(f.f, a) : -1;
    std::vector<Undo> undo; int from = f.blk;
    bool ok = true;
    if (I.w2 & 1) ok = runside(s, f, a, c, undo);
    if (ok && (I.w2 & 2)) ok = runside(s, f, b, nc, undo);
    if (!ok) {
        for (size_t i = undo.size(); i-- > 0;) { ObjP *op; Obj *o = findobj(s, undo[i].addr, &op); storemem(op, undo[i].addr - o->base, undo[i].n, undo[i].old); }
        return false;
    }
    Blk &B = f.f->blk[J];
    if (!B.phis.empty()) {
        int pa = (I.w2 & 1) ? a : from, pb = (I.w2 & 2) ? b : from;
        auto *ma = (std::vector<std::tuple<int32_t, uint32_t, std::vector<Opd>>> *)nullptr, *mb = ma;
        for (auto &p : B.phis) { if (p.first == pa) ma = &p.second; if (p.first == pb) mb = &p.second; }
        if (!ma || !mb || ma->size() != mb->size()) die("phi");
        std::vector<V> tmp;
        for (size_t i = 0; i < ma->size(); i++) for (size_t z = 0; z < std::get<2>((*ma)[i]).size(); z++) {
            const Opd &oa = std::get<2>((*ma)[i])[z], *obp = nullptr;
            for (auto &m : *mb) if (std::get<0>(m) == std::get<0>((*ma)[i])) obp = &std::get<2>(m)[z];
            if (!obp) die("phi");
            V va = get(f, oa), vb = get(f, *obp);
            if (!va.e && !vb.e && va.v == vb.v) { tmp.push_back(va); continue; }
            unsigned w = f.f->slotw[std::get<0>((*ma)[i]) + z];
            tmp.push_back(fromE(X.ite(c, toE(va, w), toE(vb, w))));
        }
        size_t k = 0; for (auto &m : *ma) for (uint32_t i = 0; i < std::get<1>(m); i++) f.r[std::get<0>(m) + i] = tmp[k++];
    }
    f.blk = J; f.pc = B.start; n_conv++;
    return true;
}

static void run_path(State *sp) {
    State &s = *sp;
    uint64_t tick = 0;
    for (;;) {
        Thread &t = s.thr[s.cur]; Frame &f = t.st.back(); const Ins &I = f.f->code[f.pc];
        n_instr++; s.steps++;
        if (s.steps > maxsteps) { report(s, s.model, "termination", "no end within the step bound"); goto end; }
        if ((++tick & 0xfff) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > tlimit) { incomplete = true; incomplete_why = "time limit"; goto end; }
        switch (I.op) {
        case I_BIN: {
            V a = get(f, I.o[0], I.w), b = get(f, I.o[1], I.w);
            if (b.e && I.bop >= O_MUL && I.bop <= O_SREM) { b = pick(s, f, I.o[1], b, I.w); a = pick(s, f, I.o[0], a, I.w); }
            if (I.bop >= O_UDIV && I.bop <= O_SREM) { if (!require(s, X.lnot(X.cmp(O_EQ, toE(b, I.w), X.cst(I.w, 0))), "arith", "division by zero")) goto end; }
            if (I.bop >= O_SHL && I.bop <= O_ASHR && (b.e || b.v >= I.w)) { if (!require(s, X.cmp(O_ULT, toE(b, I.w), X.cst(I.w, I.w)), "arith", "shift wider than the operand")) goto end; }
            V r = binop(I.bop, I.w, a, b);
            if (I.nsw && opt_nsw && (a.e || b.e || I.bop != O_SHL)) { if (!nsw_check(s, I, a, b, r)) goto end; }
            f.r[I.dst] = r; f.pc++; break; }
        case I_CMP: {
            V a = get(f, I.o[0], I.w), b = get(f, I.o[1], I.w);
            if (!a.e && !b.e) { uint64_t r = foldop(I.bop, I.w, a.v, b.v); f.r[I.dst] = cv(I.neg ? !r : r); }
            else { E c = X.cmp(I.bop, toE(a, I.w), toE(b, I.w)); f.r[I.dst] = fromE(I.neg ? X.lnot(c) : c); }
            f.pc++; break; }
        case I_LOAD: {
            V a = get(f, I.o[0]); uint32_t n = I.f.empty() ? 0 : I.f.back().off + I.f.back().bytes; ObjP *op; uint32_t off;
            if (!resolve(s, a, n, false, op, off, I.neg)) goto end;
            for (size_t i = 0; i < I.f.size(); i++) {
                V v = loadmem(op, off + I.f[i].off, I.f[i].bytes);
                if (I.f[i].w != I.f[i].bytes * 8) { if (v.e) v = fromE(X.extract(v.e, 0, I.f[i].w)); else v.v &= maskw(I.f[i].w); }
                f.r[I.dst + i] = v;
            }
            f.pc++; break; }
        case I_STORE: {
            V a = get(f, I.o[0]); uint32_t n = I.f.empty() ? 0 : I.f.back().off + I.f.back().bytes; ObjP *op; uint32_t off;
            if (!resolve(s, a, n, true, op, off, I.neg)) goto end;
            for (size_t i = 0; i < I.f.size(); i++) {
                const Opd &o = I.o[1 + i];
                if (o.slot < 0 && o.undef) { Obj *ob = wr(op); unlink_cells(ob, off + I.f[i].off, I.f[i].bytes); memset(&ob->kind[off + I.f[i].off], 1, I.f[i].bytes); continue; }
                V v = get(f, o, I.f[i].w);
                if (I.f[i].w != I.f[i].bytes * 8 && v.e) v = fromE(X.zext(v.e, I.f[i].bytes * 8));
                storemem(op, off + I.f[i].off, I.f[i].bytes, v);
            }
            f.pc++; break; }
        case I_ALLOCA: { uint64_t n = concretise(s, get(f, I.o[0]), I.w, "alloca size"); ObjP o = newobj(s, I.k * n ? I.k * n : 1, "stack", false, false); f.allocas.push_back(o->base); f.r[I.dst] = cv(o->base); f.pc++; break; }
        case I_GEP: {
            V r = get(f, I.o[0]); bool sy = r.e; uint64_t c = r.v + I.k; E e = r.e;
            E acc = 0;
            for (size_t i = 0; i < I.scale.size(); i++) {
                V x = get(f, I.o[1 + i], I.scale[i].first);
                if (!x.e) c += (uint64_t)sxt(x.v, I.scale[i].first) * I.scale[i].second;
                else { E q = X.bin(O_MUL, X.sext(x.e, 64), X.cst(64, I.scale[i].second)); acc = acc ? X.bin(O_ADD, acc, q) : q; sy = true; }
            }
            if (!sy) f.r[I.dst] = cv(c);
            else { E base = e ? (acc ? X.bin(O_ADD, e, acc) : e) : acc; uint64_t k = e ? c - r.v : c; f.r[I.dst] = fromE(X.bin(O_ADD, base, X.cst(64, k))); }
            f.pc++; break; }
        case I_BR: jump(f, I.tgt[0]); break;
        case I_CBR: { if (I.o[0].slot < 0 && I.o[0].undef) { report(s, s.model, "memory", "branch on an undefined value"); goto end; } V c = get(f, I.o[0], 1); if (c.e && I.w2 && ifconvert(s, f, I, c.e)) break; int d = c.e ? decide(s, c.e) : (int)c.v; jump(f, I.tgt[d ? 0 : 1]); break; }
        case I_SWITCH: {
            V c = get(f, I.o[0], I.w); size_t i;
            for (i = 0; i < I.cases.size(); i++) {
                if (!c.e) { if (c.v == I.cases[i]) break; }
                else if (decide(s, X.cmp(O_EQ, c.e, X.cst(I.w, I.cases[i])))) break;
            }
            jump(f, I.tgt[i]); break; }
        case I_SEL: {
            V c = get(f, I.o[0], 1); size_t n = I.f.size();
            if (!c.e) for (size_t i = 0; i < n; i++) f.r[I.dst + i] = get(f, I.o[1 + i + (c.v ? 0 : n)], I.f[i].w);
            else for (size_t i = 0; i < n; i++) f.r[I.dst + i] = fromE(X.ite(c.e, toE(get(f, I.o[1 + i], I.f[i].w), I.f[i].w), toE(get(f, I.o[1 + n + i], I.f[i].w), I.f[i].w)));
            f.pc++; break; }
        case I_ZEXT: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.zext(a.e, I.w2)) : cv(a.v); f.pc++; break; }
        case I_SEXT: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.sext(a.e, I.w2)) : cv((uint64_t)sxt(a.v, I.w) & maskw(I.w2)); f.pc++; break; }
        case I_TRUNC: { V a = get(f, I.o[0], I.w); f.r[I.dst] = a.e ? fromE(X.extract(a.e, 0, I.w2)) : cv(a.v & maskw(I.w2)); f.pc++; break; }
        case I_MOVE: f.r[I.dst] = get(f, I.o[0], I.w); f.pc++; break;
        case I_EXTRV: for (uint32_t i = 0; i < I.n; i++) f.r[I.dst + i] = get(f, I.o[I.k + i]); f.pc++; break;
        case I_INSV: { uint32_t n = I.cases[0]; for (uint32_t i = 0; i < n; i++) f.r[I.dst + i] = get(f, I.o[i]); for (size_t i = n; i < I.o.size(); i++) f.r[I.dst + I.k + i - n] = get(f, I.o[i]); f.pc++; break; }
        case I_RMW: { V a = get(f, I.o[0]), v = get(f, I.o[1], I.w); ObjP *op; uint32_t off; if (!resolve(s, a, I.w / 8, true, op, off, true)) goto end; V old = loadmem(op, off, I.w / 8); f.r[I.dst] = old; storemem(op, off, I.w / 8, I.bop == O_NONE ? v : binop(I.bop, I.w, old, v)); f.pc++; break; }
        case I_CAS: { V a = get(f, I.o[0]), ex = get(f, I.o[1], I.w), nv = get(f, I.o[2], I.w); ObjP *op; uint32_t off; if (!resolve(s, a, I.w / 8, true, op, off, true)) goto end; V old = loadmem(op, off, I.w / 8);
            int eq = decide(s, X.cmp(O_EQ, toE(old, I.w), toE(ex, I.w))); f.r[I.dst] = old; f.r[I.dst + 1] = cv(eq); if (eq) storemem(op, off, I.w / 8, nv); f.pc++; break; }
        case I_UNREACH: report(s, s.model, "assert", "unreachable code reached"); goto end;
        case I_NOP: f.pc++; break;
        case I_RET: {
            std::vector<V> rv; for (auto &o : I.o) rv.push_back(get(f, o));
            const Ins *call = f.call; popframe(s, t);
            if (t.st.empty()) { if (s.cur == 0) { n_paths++; goto done; } die("a model thread returned"); }
            Frame &c = t.st.back();
            if (call && call->dst >= 0) for (size_t i = 0; i < rv.size() && i < call->n; i++) c.r[call->dst + i] = rv[i];
            c.pc++; break; }
        case I_CALL: {
            FuncI *fi = I.callee;
            if (!fi) {
                V p = get(f, I.o[0]); uint64_t a = concretise(s, p, 64, "a function pointer");
                auto it = faddr.find(a);
                if (it == faddr.end()) { report(s, s.model, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer"); goto end; }
                fi = it->second;
            }
            std::vector<V> args; for (size_t i = 1; i < I.o.size(); i++) args.push_back(get(f, I.o[i], I.aw[i - 1]));
            if (fi->intr >= 0) { int r = callintr(s, I, fi->intr, args, fi); if (r == K_END) goto end; if (r == K_OK) s.thr[s.cur].st.back().pc++; break; }
            std::vector<uint64_t> byv;
            for (uint64_t bvx : I.cases) {   // byval: pass a copy
                uint32_t ai = bvx >> 32, sz = (uint32_t)bvx; size_t k = 0; for (uint32_t z = 0; z < ai; z++) k += I.an[z];
                ObjP *so; uint32_t off; if (!resolve(s, args[k], sz, false, so, off)) goto end;
                ObjP no = newobj(s, sz, "byval", false, false); uint64_t nb = no->base; no.reset();
                ObjP *dp = &s.mem[nb]; findobj(s, args[k].v, &so); copymem(s, dp, 0, so, off, sz); args[k] = cv(nb); byv.push_back(nb);
            }
            if (!pushcall(s, fi, args, I.aw, I.an, &I)) goto end;
            for (uint64_t b : byv) s.thr[s.cur].st.back().allocas.push_back(b);
            break; }
        default: die("op");
        }
    }
end:
    n_paths++;
done:
    delete sp;
}
static void run(State *sp) {
    running = true;
    try { run_path(sp); }
    catch (Unsupported &u) { if (!incomplete) fprintf(stderr, "symx: unsupported: %s\n", u.m.c_str()); incomplete = true; incomplete_why = "unsupported: " + u.m; n_paths++; delete sp; }
    running = false;
}

static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }

int main(int argc, char **argv) {
    const char *in = nullptr, *out = nullptr, *entry = "harness";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i]; else if (a == "--time") tlimit = atof(argv[++i]); else if (a == "--entry") entry = argv[++i];
        else if (a == "--steps") maxsteps = strtoull(argv[++i], 0, 10); else if (a == "--maxviol") maxviol = atoi(argv[++i]); else if (a == "--signed-overflow") opt_nsw = true;
        else if (a == "--races") opt_races = argv[++i]; else if (a == "--solver-timeout") S.timeout_ms = atoi(argv[++i]); else if (a == "--max-paths") max_paths = strtoull(argv[++i], 0, 10); else in = argv[i];
    }
    T0 = std::chrono::steady_clock::now();
    LLVMContext C; SMDiagnostic err; M = parseIRFile(in, err, C);
    if (!M) { err.print("symx", errs()); return 3; }
    DL = &M->getDataLayout();
    State *s0 = new State;
    uint64_t fa = 0x100000;
    for (auto &f : *M) { FuncI *fi = new FuncI; fi->f = &f; fi->name = f.getName().str(); fi->addr = fa; gaddr[&f] = fa; faddr[fa] = fi; finfo[&f] = fi; fi->intr = intrinsic(&f); fa += 16;
        if (!opt_races.empty() && f.getSubprogram()) { std::string n = f.getSubprogram()->getFilename().str(), d = f.getSubprogram()->getDirectory().str(); if (n.empty() || n[0] != '/') n = d + "/" + n; fi->lib = n.compare(0, opt_races.size(), opt_races) == 0; } }
    // an external function f is bound to the model's mk_f
    for (auto &f : *M) if (f.isDeclaration() && finfo[&f]->intr < 0) { Function *m = M->getFunction("mk_" + f.getName().str()); if (m && !m->isDeclaration()) { finfo[&f] = finfo[m]; gaddr[&f] = gaddr[m]; } }
    for (auto &g : M->globals()) { uint64_t sz = DL->getTypeAllocSize(g.getValueType()); ObjP o = newobj(*s0, sz ? sz : 1, strdup(g.getName().str().c_str()), false, true); gaddr[&g] = o->base; }
    for (auto &g : M->globals()) { ObjP o = s0->mem[gaddr[&g]]; if (g.hasInitializer()) initmem(o.get(), g.getInitializer(), 0); o->ro = g.isConstant(); o->shared = !g.isConstant() && !g.isThreadLocal();if (g.isThreadLocal()) tlsinit[o->base] = std::make_shared<Obj>(*o); }
    Function *ef = M->getFunction(entry); if (!ef) { fprintf(stderr, "symx: no %s()\n", entry); return 3; }
    s0->thr.emplace_back(); s0->cur = 0; pushcall(*s0, finfo[ef], {}, {}, {}, nullptr);
    work.push_back(s0);
    // a solver query that is under way when the time is over is given up
    std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::seconds(1)); if (std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > tlimit + 5 && S.ctx) Z3_interrupt(S.ctx); } }).detach();
    while (!work.empty() && viols.size() < maxviol && !incomplete) {
        if (n_paths >= max_paths) { incomplete = true; incomplete_why = "path limit"; break; }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > tlimit) { incomplete = true; incomplete_why = "time limit"; break; }
        State *s = work.back(); work.pop_back(); run(s);
    }
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
    FILE *fo = out ? fopen(out, "w") : stdout;
    fprintf(fo, "{\"complete\":%s,\"why\":%s,\"paths\":%llu,\"instructions\":%llu,\"forks\":%llu,\"merged_branches\":%llu,\"infeasible_branches\":%llu,\"assertions\":%llu,\"assertions_symbolic\":%llu,\"queries\":%llu,\"bit_decided\":%llu,\"cache_hits\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"vars\":%zu,\n",
        (!incomplete && viols.size() < maxviol) ? "true" : "false", js(incomplete_why).c_str(), (unsigned long long)n_paths, (unsigned long long)n_instr, (unsigned long long)n_forks, (unsigned long long)n_conv, (unsigned long long)n_infeasible, (unsigned long long)n_asserts, (unsigned long long)n_assert_q, (unsigned long long)S.queries, (unsigned long long)S.bitdec, (unsigned long long)S.cachehits, (unsigned long long)S.unknowns, S.secs, secs, X.varname.size());
    fprintf(fo, "\"covers\":{"); bool first = true; for (auto &c : covers) { fprintf(fo, "%s%s:%llu", first ? "" : ",", js(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(fo, "},\n\"functions\":["); first = true;
    for (auto &f : *M) { FuncI *fi = finfo[&f]; if (fi->calls && f.getSubprogram()) { std::string file = f.getSubprogram()->getFilename().str(); fprintf(fo, "%s[%s,%s]", first ? "" : ",", js(fi->name).c_str(), js(file).c_str()); first = false; } }
    fprintf(fo, "],\n\"violations\":["); first = true;
    for (auto &v : viols) {
        fprintf(fo, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"uninit\":%s,\"nd\":[", first ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str(), js(v.stack).c_str(), v.uninit ? "true" : "false");
        for (size_t i = 0; i < v.nd.size(); i++) fprintf(fo, "%s%llu", i ? "," : "", (unsigned long long)v.nd[i].second);
        fprintf(fo, "]}"); first = false;
    }
    fprintf(fo, "]}\n");
    if (out) fclose(fo);
    fflush(stdout);
    _exit(incomplete ? 2 : viols.empty() ? 0 : 1);
}
