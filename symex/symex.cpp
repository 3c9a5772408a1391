// symex: bounded symbolic executor for LLVM-18 bitcode of the real TenniS code.
// Every path condition / assertion is decided by z3.  See DESIGN.md.
#include "expr.h"
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/resource.h>

using namespace llvm;
static ExprMgr *EM;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
struct Val;
struct Agg { int rc = 0; std::vector<Val> v; };
struct Val {
    enum K : uint8_t { U, C, E, A } k = U;   // undef, concrete<=64, expr, aggregate/vector
    uint64_t c = 0;                           // concrete, or Expr*, or Agg*
    Val() {}
    static Val con(uint64_t x) { Val v; v.k = C; v.c = x; return v; }
    static Val ex(Expr *e) { Val v; if (e->op == Op::Const && e->w <= 64) { v.k = C; v.c = e->c64(); } else { v.k = E; v.c = (uint64_t) e; } return v; }
    static Val agg(std::vector<Val> &&x) { Val v; v.k = A; Agg *a = new Agg(); a->rc = 1; a->v = std::move(x); v.c = (uint64_t) a; return v; }
    Val(const Val &o) : k(o.k), c(o.c) { if (k == A) ((Agg *) c)->rc++; }
    Val(Val &&o) noexcept : k(o.k), c(o.c) { o.k = U; }
    Val &operator=(const Val &o) { if (o.k == A) ((Agg *) o.c)->rc++; drop(); k = o.k; c = o.c; return *this; }
    Val &operator=(Val &&o) noexcept { if (this != &o) { drop(); k = o.k; c = o.c; o.k = U; } return *this; }
    void drop() { if (k == A && --((Agg *) c)->rc == 0) delete (Agg *) c; k = U; }
    ~Val() { drop(); }
    Expr *e() const { return (Expr *) c; }
    const std::vector<Val> &a() const { return ((Agg *) c)->v; }
    bool isReal() const { return k == E && e()->real; }
};

struct TI {  // type info
    enum K { Void, Int, Flt, Ptr, Vec, Struct, Arr } k;
    unsigned w = 0; uint64_t size = 0, alloc = 0;
    std::vector<TI *> el; std::vector<uint64_t> off; uint64_t n = 0; Type *T;
};

// ------------------------------------------------------------------ memory
struct SB { Expr *e; uint8_t i; };            // symbolic byte i of expression e
struct Obj {
    int rc = 0; uint64_t base, size; bool freed = false, ro = false, global = false; uint8_t kind = 0; // 0 heap 1 stack 2 global
    std::vector<uint8_t> b; std::vector<SB> *s = nullptr; uint32_t nsym = 0; std::string name;
    ~Obj() { delete s; }
    Obj *clone() const { Obj *o = new Obj(); o->base = base; o->size = size; o->freed = freed; o->ro = ro; o->kind = kind; o->b = b; if (s) o->s = new std::vector<SB>(*s); o->nsym = nsym; o->name = name; return o; }
};
struct OR { // ref
    Obj *o = nullptr; OR() {} OR(Obj *x) : o(x) { if (o) o->rc++; } OR(const OR &r) : o(r.o) { if (o) o->rc++; } OR(OR &&r) noexcept : o(r.o) { r.o = nullptr; }
    OR &operator=(const OR &r) { if (r.o) r.o->rc++; if (o && --o->rc == 0) delete o; o = r.o; return *this; }
    OR &operator=(OR &&r) noexcept { std::swap(o, r.o); return *this; }
    ~OR() { if (o && --o->rc == 0) delete o; }
    Obj *operator->() const { return o; }
};

// ------------------------------------------------------------------ code
struct FnInfo; struct BBInfo;
struct DI { // decoded instruction
    unsigned op = 0; Instruction *I = nullptr; int dst = -1; std::vector<int> o; TI *t = nullptr; TI *t0 = nullptr;
    uint64_t imm = 0; std::vector<std::pair<int, uint64_t>> gep; // (operand, scale)
    std::vector<int> bb; // successor indices
    Function *callee = nullptr; int builtin = -1; unsigned pred = 0; std::vector<uint64_t> idx; std::vector<int> mask;
    std::vector<std::pair<Val, int>> cases;
};
struct Phi { int dst; std::vector<std::pair<int, int>> in; };
struct BBInfo { std::vector<Phi> phis; std::vector<DI> ins; BasicBlock *B; };
struct FnInfo { Function *F; std::vector<BBInfo> bb; int nslots = 0; std::vector<Val> consts; std::vector<const GlobalVariable *> tls; bool hasTls = false; std::vector<int> args; bool decoded = false; std::string name; uint64_t hits = 0; };

struct Frame {
    FnInfo *f; std::vector<Val> r; int bb = 0, ip = 0, prev = -1;
    std::vector<uint64_t> allocas; int retDst = -1; int normal = -1, unwind = -1; uint8_t special = 0; // special:1 = ignore return (builtin-pushed)
    uint64_t excIn = 0; int selIn = 0; std::vector<Val> va;
};
struct Exc { uint64_t ti = 0, dtor = 0; int handlers = 0; bool uncaughtFree = false; int rethrown = 0; };
struct Thread { std::vector<Frame> st; int status = 0; /*0 run 1 blocked-mutex 2 blocked-cond 3 blocked-join 4 done 5 wake-reacquire*/ uint64_t wait = 0, wait2 = 0; std::vector<uint64_t> caught; uint64_t retval = 0; std::map<const GlobalVariable *, uint64_t> tls; uint64_t timedDst = 0; };
struct Input { std::string name; char type; unsigned w; Expr *e; uint64_t c; };
// happens-before race detection while more than one thread exists
typedef std::vector<uint32_t> VC;
static inline void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
static inline uint32_t vget(const VC &a, size_t i) { return i < a.size() ? a[i] : 0; }
struct Cell { uint8_t mask, tid, wr, at; uint32_t clk; };
struct Race { std::vector<VC> vc; std::unordered_map<uint64_t, VC> sync; std::unordered_map<uint64_t, std::vector<Cell>> sh; };
struct State {
    std::shared_ptr<Race> race; unsigned spur = 0;
    std::vector<OR> heap, stk; std::vector<OR> glob;
    uint64_t nextHeap = 0x100000000000ULL, nextStk = 0x700000000000ULL;
    std::vector<Thread> th{1}; int cur = 0;
    std::vector<Expr *> pc; std::shared_ptr<z3::model> model;
    std::vector<Input> in; std::map<uint64_t, Exc> exc; std::map<uint64_t, int> mtx; // mutex addr -> owner tid+1
    uint64_t steps = 0; unsigned depth = 0; bool reached = false; unsigned switches = 0; std::vector<std::string> trace; uint64_t pendingSwitch = 0;
    bool forceInput = false; std::string thrownAt;
    std::set<uint32_t> pcids; std::map<uint32_t, uint64_t> facts;
};

struct Violation { std::string kind, msg, where; std::vector<std::pair<Input, std::string>> in; std::vector<std::string> trace; };

struct Term { std::string why; };          // path terminated silently
struct Bug { std::string kind, msg; };       // violation found
struct Unsup { std::string msg; };           // engine limitation
struct ForkRetry {};                          // states forked; re-execute instruction in each

struct Exec {
    std::unique_ptr<Module> M; const DataLayout *DL; LLVMContext LC;
    std::map<Type *, TI *> tis; std::unordered_map<Function *, FnInfo *> fns; std::unordered_map<uint64_t, Function *> fnAddr; std::unordered_map<const Function *, uint64_t> addrFn;
    std::unordered_map<const GlobalValue *, uint64_t> gaddr; std::map<uint64_t, const GlobalVariable *> gbyaddr;
    std::map<const GlobalVariable *, std::vector<uint8_t>> tlsImage;   // initial contents of thread-local variables
    std::vector<State *> work; State *S = nullptr;
    z3::solver *slv; std::vector<Expr *> pushed;
    uint64_t nq = 0, nqsat = 0, nqunsat = 0, nqunk = 0, npaths = 0, nforks = 0, nasserts = 0, ninstr = 0, nasserttriv = 0, nassume = 0, ndead = 0; double tsolve = 0;
    std::vector<Violation> viol; std::set<std::string> reached; std::vector<std::string> incomplete; std::set<std::string> declared; std::vector<std::string> samples;
    // options
    uint64_t maxSteps = 50000000; double timeout = 600; unsigned qtimeout = 60000; unsigned maxViol = 1; uint64_t maxPaths = 2000000; bool verbose = false; int preempt = 2, preemptAt = 1, spurious = 0; bool atomicAcc = false; double t0; std::string outFile; bool leakCheck = false; uint64_t maxEnum = 1200;
    bool nondetAlloc = false;

    // -------------------------------------------------------------- types
    TI *ti(Type *T) {
        auto it = tis.find(T); if (it != tis.end()) return it->second;
        TI *t = new TI(); t->T = T; tis[T] = t;
        if (T->isVoidTy()) { t->k = TI::Void; return t; }
        if (T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) { t->k = TI::Void; return t; }
        if (T->isSized()) { t->size = DL->getTypeStoreSize(T).getFixedValue(); t->alloc = DL->getTypeAllocSize(T).getFixedValue(); }
        if (auto I = dyn_cast<IntegerType>(T)) { t->k = TI::Int; t->w = I->getBitWidth(); }
        else if (T->isHalfTy()) { t->k = TI::Flt; t->w = 16; }
        else if (T->isFloatTy()) { t->k = TI::Flt; t->w = 32; }
        else if (T->isDoubleTy()) { t->k = TI::Flt; t->w = 64; }
        else if (T->isX86_FP80Ty()) { t->k = TI::Flt; t->w = 80; }
        else if (T->isPointerTy()) { t->k = TI::Ptr; t->w = 64; }
        else if (auto V = dyn_cast<FixedVectorType>(T)) { t->k = TI::Vec; t->n = V->getNumElements(); t->el = {ti(V->getElementType())}; }
        else if (auto A = dyn_cast<ArrayType>(T)) { t->k = TI::Arr; t->n = A->getNumElements(); t->el = {ti(A->getElementType())}; }
        else if (auto St = dyn_cast<StructType>(T)) { t->k = TI::Struct; t->n = St->getNumElements(); if (St->isSized()) { auto L = DL->getStructLayout(St); for (unsigned i = 0; i < t->n; ++i) { t->el.push_back(ti(St->getElementType(i))); t->off.push_back(L->getElementOffset(i)); } } }
        else { t->k = TI::Void; }
        return t;
    }
    static uint64_t msk(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
    Expr *E(const Val &v, unsigned w) { // as BV expr of width w
        if (v.k == Val::C) return EM->cst(w, v.c & msk(w));
        if (v.k == Val::U) return EM->cst(w, 0);
        if (v.k == Val::E) { if (v.e()->real) throw Unsup{"real value used as bits"}; return v.e(); }
        throw Unsup{"aggregate used as scalar"};
    }
    static double dbl(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t) c; memcpy(&f, &x, 4); return f; } if (w == 16) { APFloat a(APFloat::IEEEhalf(), APInt(16, c)); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return a.convertToDouble(); } double d; memcpy(&d, &c, 8); return d; }
    static uint64_t bits(double d, unsigned w) { if (w == 32) { float f = (float) d; uint32_t x; memcpy(&x, &f, 4); return x; } if (w == 16) { APFloat a(d); bool li; a.convert(APFloat::IEEEhalf(), APFloat::rmNearestTiesToEven, &li); return a.bitcastToAPInt().getZExtValue(); } uint64_t x; memcpy(&x, &d, 8); return x; }
    // a choice between constant floats, seen as a real
    Expr *bits2real(Expr *e, unsigned w) {
        if (e->real) return e;
        if (e->isConst()) { double d = dbl(e->c64(), w); if (std::isnan(d) || std::isinf(d)) return nullptr; return EM->rcst(d); }
        if (e->op == Op::FExt) return bits2real(e->k[0], 32);
        if (e->op == Op::Ite) { Expr *a = bits2real(e->k[1], w), *b = a ? bits2real(e->k[2], w) : nullptr; return b ? EM->ite(e->k[0], a, b) : nullptr; }
        return nullptr;
    }
    Expr *R(const Val &v, unsigned w) { // as real
        if (v.k == Val::E) { if (v.e()->real) return v.e(); if (Expr *r = bits2real(v.e(), w)) return r; throw Unsup{"mixing symbolic float bits with Real mode"}; }
        if (v.k == Val::U) return EM->rcst(0);
        double d = dbl(v.c, w);
        if (std::isnan(d) || std::isinf(d)) throw Unsup{"non-finite constant in Real mode arithmetic"};
        return EM->rcst(d);
    }

    // -------------------------------------------------------------- solver
    enum Res { Sat, Unsat, Unk };
    void sync(const std::vector<Expr *> &pc) {
        size_t n = 0; while (n < pushed.size() && n < pc.size() && pushed[n] == pc[n]) n++;
        if (pushed.size() > n) { slv->pop((unsigned) (pushed.size() - n)); pushed.resize(n); }
        for (; n < pc.size(); ++n) { slv->push(); EM->prepare(pc[n]); slv->add(z3::expr(EM->ctx, EM->zb(pc[n]))); pushed.push_back(pc[n]); }
    }
    Res check(State *st, Expr *c, std::shared_ptr<z3::model> *m = nullptr) {
        double a = now(); nq++; if (a - t0 > timeout) throw Unsup{"time budget exhausted"};
        sync(st->pc);
        EM->prepare(c);
        slv->push(); slv->add(z3::expr(EM->ctx, EM->zb(c)));
        z3::check_result r;
        Res res = Unk;
        try {
            r = slv->check();
            res = r == z3::sat ? Sat : r == z3::unsat ? Unsat : Unk;
            if (res == Sat && m) *m = std::make_shared<z3::model>(slv->get_model());
        } catch (z3::exception &e) { if (verbose) std::cerr << "z3: " << e.msg() << "\n"; res = Unk; }
        slv->pop();
        if (getenv("SX_DUMP") && now() - a > 2) { z3::solver s2(EM->ctx); for (auto e : st->pc) s2.add(z3::expr(EM->ctx, EM->zb(e))); s2.add(z3::expr(EM->ctx, EM->zb(c))); std::cerr << s2 << "\n"; }
        if (res == Unk) { // second opinion: fresh, non-incremental solver
            try {
                z3::solver s2(EM->ctx); z3::params p(EM->ctx); p.set("timeout", qtimeout); s2.set(p);
                for (auto e : st->pc) s2.add(z3::expr(EM->ctx, EM->zb(e)));
                s2.add(z3::expr(EM->ctx, EM->zb(c)));
                r = s2.check(); res = r == z3::sat ? Sat : r == z3::unsat ? Unsat : Unk;
                if (res == Sat && m) *m = std::make_shared<z3::model>(s2.get_model());
            } catch (z3::exception &e) { if (verbose) std::cerr << "z3: " << e.msg() << "\n"; }
        }
        if (res == Sat) nqsat++; else if (res == Unsat) nqunsat++; else nqunk++;
        double dt = now() - a; tsolve += dt;
        if (verbose && dt > 2) std::cerr << "slow query " << dt << "s res=" << res << " in " << where().substr(0, 160) << "\n";
        return res;
    }
    // -1 unknown-by-model, 0 false, 1 true under st->model
    int underModel(State *st, Expr *c) {
        if (!st->model) return -1;
        EM->prepare(c);
        z3::expr r = st->model->eval(z3::expr(EM->ctx, EM->zb(c)), true);
        if (r.is_true()) return 1; if (r.is_false()) return 0; return -1;
    }
    void addPC(State *st, Expr *c) { if (c->isConst()) return; if (c->op == Op::And && c->w == 1) { addPC(st, c->k[0]); addPC(st, c->k[1]); return; } if (c->op == Op::Eq && c->k[1]->isConst() && c->k[1]->w <= 64) st->facts[c->k[0]->id] = c->k[1]->c64(); if (st->pcids.insert(c->id).second) st->pc.push_back(c); }
    bool implied(State *st, Expr *c) { return st->pcids.count(c->id) > 0; }
    // can c be true?
    bool may(State *st, Expr *c, std::shared_ptr<z3::model> *mo = nullptr) {
        if (c->isConst()) { if (mo) *mo = st->model; return !c->big->isZero(); }
        if (implied(st, c)) { if (mo) *mo = st->model; return true; }
        if (implied(st, EM->bnot(c))) return false;
        if (underModel(st, c) == 1) { if (mo) *mo = st->model; return true; }
        std::shared_ptr<z3::model> m;
        Res r = check(st, c, &m);
        if (r == Unk) { incomplete.push_back("solver gave no answer within " + std::to_string(qtimeout) + " ms at " + where()); throw Term{"solver unknown"}; }
        if (r == Sat && mo) *mo = m;
        return r == Sat;
    }
    std::string where() {
        if (!S) return "?"; std::string s; auto &st = S->th[S->cur].st; int n = 0;
        for (int i = (int) st.size() - 1; i >= 0 && n < 14; --i, ++n) { s += (n ? " < " : "") + demangle(st[i].f->name).substr(0, 110); }
        return s;
    }
    // decide a condition; forks if both feasible. returns chosen value for current state.
    bool branch(Expr *c) {
        if (c->isConst()) return !c->big->isZero();
        if (implied(S, c)) return true;
        Expr *nc = EM->bnot(c);
        if (implied(S, nc)) return false;
        { uint64_t fv = fixedValue(c); if (fixedOk) return fv & 1; }
        std::shared_ptr<z3::model> mt, mf; bool ct = may(S, c, &mt), cf;
        if (!ct) { addPC(S, nc); return false; }
        cf = may(S, nc, &mf);
        if (!cf) { addPC(S, c); if (mt) S->model = mt; return true; }
        // fork: other state re-executes the same instruction with nc assumed
        State *o = new State(*S); nforks++; o->depth++; S->depth++;
        addPC(o, nc); o->model = mf; work.push_back(o);
        addPC(S, c); S->model = mt;
        return true;
    }
    // the integer a real is truncated to, when the path allows only one
    static bool linear(Expr *x) { switch (x->op) { case Op::RConst: case Op::RSym: return true; case Op::RAdd: return linear(x->k[0]) && linear(x->k[1]); case Op::RMul: return x->k[1]->op == Op::RConst && linear(x->k[0]); default: return false; } }
    bool pinned(Expr *x, int64_t &k) {
        if (!linear(x)) return false;
        if (!S->model) { std::shared_ptr<z3::model> m; if (check(S, EM->tru(), &m) != Sat) return false; S->model = m; }
        Expr *t = EM->rtrunc(x, 64); EM->prepare(t); uint64_t u; if (!S->model->eval(z3::expr(EM->ctx, EM->z(t)), true).is_numeral_u64(u)) return false;
        k = (int64_t) u; if (k > (1LL << 50) || k < -(1LL << 50)) return false;
        Expr *in = k > 0 ? EM->band(EM->rcmp(Op::RLe, EM->rcst((double) k), x), EM->rcmp(Op::RLt, x, EM->rcst((double) k + 1))) : k < 0 ? EM->band(EM->rcmp(Op::RLt, EM->rcst((double) k - 1), x), EM->rcmp(Op::RLe, x, EM->rcst((double) k))) : EM->band(EM->rcmp(Op::RLt, EM->rcst(-1), x), EM->rcmp(Op::RLt, x, EM->rcst(1)));
        return check(S, EM->bnot(in)) == Unsat;
    }
    // make a symbolic value concrete by exhaustive case split
    uint64_t concretize(Expr *e, const char *what) {
        if (e->isConst()) return e->c64();
        if (e->real) throw Unsup{std::string("concretizing real: ") + what};
        // quick: value under current model
        std::vector<uint64_t> vals; std::vector<std::shared_ptr<z3::model>> ms;
        State tmp(*S);
        Expr *excl = EM->tru();
        while (true) {
            std::shared_ptr<z3::model> m;
            if (vals.empty() && S->model) m = S->model;
            else { bool ok = excl->isConst() ? true : false; if (!ok || !S->model) { Res r = check(S, excl, &m); if (r == Unk) { incomplete.push_back("solver unknown while enumerating " + std::string(what)); break; } if (r == Unsat) break; } }
            EM->prepare(e);
            z3::expr v = m->eval(z3::expr(EM->ctx, EM->z(e)), true);
            uint64_t u; if (!v.is_numeral_u64(u)) throw Unsup{"model value"};
            vals.push_back(u); ms.push_back(m);
            excl = EM->band(excl, EM->bnot(EM->eq(e, EM->cst(e->w, u))));
            if (excl->isConst() && excl->big->isZero()) break;
            if (vals.size() > maxEnum) { incomplete.push_back("more than " + std::to_string(maxEnum) + " values for " + what + " at " + where()); break; }
        }
        if (vals.empty()) throw Term{"infeasible"};
        std::sort(ms.begin(), ms.begin(), [](auto &, auto &) { return false; });
        for (size_t i = 1; i < vals.size(); ++i) {
            State *o = new State(*S); nforks++; o->depth++;
            addPC(o, EM->eq(e, EM->cst(e->w, vals[i]))); o->model = ms[i]; work.push_back(o);
        }
        addPC(S, EM->eq(e, EM->cst(e->w, vals[0]))); S->model = ms[0];
        return vals[0];
    }
    uint64_t conc(const Val &v, unsigned w, const char *what) {
        if (v.k == Val::C) return v.c; if (v.k == Val::U) return 0;
        Expr *e = E(v, w);
        // substitute if already fixed by the path condition
        uint64_t u = fixedValue(e);
        if (fixedOk) return u;
        return concretize(e, what);
    }
    bool fixedOk = false;
    uint64_t fixedValue(Expr *e) { fixedOk = false; if (S->facts.empty()) return 0; unsigned n = 0; uint64_t r = 0; std::map<uint32_t, std::pair<bool, uint64_t>> memo; fixedOk = evalF(e, r, n, memo); return r; }
    // value of e implied by facts of the form "term == constant" in the path condition
    bool evalF(Expr *e, uint64_t &r, unsigned &n, std::map<uint32_t, std::pair<bool, uint64_t>> &memo) {
        if (e->isConst()) { if (e->w > 64) return false; r = e->c64(); return true; }
        if (e->real || e->w > 64 || ++n > 300) return false;
        auto f = S->facts.find(e->id); if (f != S->facts.end()) { r = f->second; return true; }
        auto mm = memo.find(e->id); if (mm != memo.end()) { r = mm->second.second; return mm->second.first; }
        bool ok = evalF2(e, r, n, memo); memo[e->id] = {ok, r}; return ok;
    }
    bool evalF2(Expr *e, uint64_t &r, unsigned &n, std::map<uint32_t, std::pair<bool, uint64_t>> &memo) {
        uint64_t a, b, c; unsigned w = e->w; auto K = [&](int i, uint64_t &x) { return evalF(e->k[i], x, n, memo); };
        switch (e->op) {
            case Op::Sym: return false;
            case Op::Ite: if (!K(0, a)) return false; return a ? K(1, r) : K(2, r);
            case Op::ZExt: return K(0, r);
            case Op::SExt: if (!K(0, a)) return false; r = (uint64_t) sx(a, e->k[0]->w) & msk(w); return true;
            case Op::Extract: if (e->k[0]->w > 64 || !K(0, a)) return false; r = (a >> e->aux) & msk(w); return true;
            case Op::Concat: if (!K(0, a) || !K(1, b)) return false; r = (a << e->k[1]->w | b) & msk(w); return true;
            case Op::Add: if (!K(0, a) || !K(1, b)) return false; r = (a + b) & msk(w); return true;
            case Op::Mul: if (!K(0, a) || !K(1, b)) return false; r = (a * b) & msk(w); return true;
            case Op::And: if (!K(0, a) || !K(1, b)) return false; r = a & b; return true;
            case Op::Or: if (!K(0, a) || !K(1, b)) return false; r = a | b; return true;
            case Op::Xor: if (!K(0, a) || !K(1, b)) return false; r = a ^ b; return true;
            case Op::Shl: if (!K(0, a) || !K(1, b)) return false; r = b >= w ? 0 : (a << b) & msk(w); return true;
            case Op::LShr: if (!K(0, a) || !K(1, b)) return false; r = b >= w ? 0 : a >> b; return true;
            case Op::AShr: if (!K(0, a) || !K(1, b)) return false; r = (uint64_t) (sx(a, w) >> (b >= w ? 63 : b)) & msk(w); return true;
            case Op::UDiv: if (!K(0, a) || !K(1, b) || !b) return false; r = a / b; return true;
            case Op::URem: if (!K(0, a) || !K(1, b) || !b) return false; r = a % b; return true;
            case Op::SDiv: case Op::SRem: { if (!K(0, a) || !K(1, b) || !b) return false; int64_t p = sx(a, w), q = sx(b, w); if (q == -1) { r = e->op == Op::SDiv ? (0 - (uint64_t) p) & msk(w) : 0; return true; } r = (uint64_t) (e->op == Op::SDiv ? p / q : p % q) & msk(w); return true; }
            case Op::Eq: if (e->k[0]->real || !K(0, a) || !K(1, b)) return false; r = a == b; return true;
            case Op::Ult: if (!K(0, a) || !K(1, b)) return false; r = a < b; return true;
            case Op::Ule: if (!K(0, a) || !K(1, b)) return false; r = a <= b; return true;
            case Op::Slt: if (!K(0, a) || !K(1, b)) return false; r = sx(a, e->k[0]->w) < sx(b, e->k[0]->w); return true;
            case Op::Sle: if (!K(0, a) || !K(1, b)) return false; r = sx(a, e->k[0]->w) <= sx(b, e->k[0]->w); return true;
            default: (void) c; return false;
        }
    }

    // -------------------------------------------------------------- memory
    Obj *find(State *st, uint64_t a) {
        std::vector<OR> *v = a >= 0x700000000000ULL ? &st->stk : a >= 0x100000000000ULL ? &st->heap : &st->glob;
        size_t lo = 0, hi = v->size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m]->base <= a) lo = m + 1; else hi = m; }
        if (!lo) return nullptr;
        Obj *o = (*v)[lo - 1].o;
        if (a > o->base + o->size) return nullptr;
        return o;
    }
    Obj *wr(State *st, Obj *o) { // writable version
        if (o->rc == 1) return o;
        std::vector<OR> *v = o->base >= 0x700000000000ULL ? &st->stk : o->base >= 0x100000000000ULL ? &st->heap : &st->glob;
        size_t lo = 0, hi = v->size();
        while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m]->base <= o->base) lo = m + 1; else hi = m; }
        Obj *n = o->clone(); (*v)[lo - 1] = OR(n); return n;
    }
    std::string hex(uint64_t x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long) x); return b; }
    Race &race() { if (!S->race) S->race = std::make_shared<Race>(); else if (S->race.use_count() > 1) S->race = std::make_shared<Race>(*S->race); Race &r = *S->race; if (r.vc.size() < S->th.size()) r.vc.resize(S->th.size()); for (size_t i = 0; i < r.vc.size(); ++i) if (r.vc[i].size() <= i) { r.vc[i].resize(i + 1, 0); r.vc[i][i] = 1; } return r; }
    void syncAcq(uint64_t key) { if (S->th.size() < 2) return; Race &r = race(); auto it = r.sync.find(key); if (it != r.sync.end()) vjoin(r.vc[S->cur], it->second); }
    void syncRel(uint64_t key) { if (S->th.size() < 2) return; Race &r = race(); vjoin(r.sync[key], r.vc[S->cur]); r.vc[S->cur][S->cur]++; }
    void raceAccess(uint64_t a, uint64_t n, bool write) {
        Race &r = race(); VC &me = r.vc[S->cur]; uint8_t t = (uint8_t) S->cur;
        for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
            uint8_t m = 0xff; if (g == a >> 3) m &= (uint8_t) (0xff << (a & 7)); if (g == (a + n - 1) >> 3) m &= (uint8_t) (0xff >> (7 - ((a + n - 1) & 7)));
            auto &cs = r.sh[g]; size_t k = 0;
            for (size_t i = 0; i < cs.size(); ++i) { Cell &c = cs[i];
                if (c.tid != t && (c.mask & m) && (c.wr || write) && !(c.at && atomicAcc) && c.clk > vget(me, c.tid)) throw Bug{"race", std::string("unsynchronised ") + (write ? "write" : "read") + " of memory " + (c.wr ? "written" : "read") + " by thread " + std::to_string(c.tid)};
                bool drop = ((c.mask & ~m) == 0 && (write || !c.wr) && c.at == (uint8_t) atomicAcc && (c.tid == t || c.clk <= vget(me, c.tid)));
                if (!drop) cs[k++] = c; }
            cs.resize(k); cs.push_back(Cell{m, t, (uint8_t) write, (uint8_t) atomicAcc, me[t]});
        }
    }
    Obj *access(uint64_t a, uint64_t n, bool write) {
        Obj *o = find(S, a);
        if (!o) { if (a < 4096) throw Bug{"memory", std::string(write ? "write" : "read") + " through null pointer (" + hex(a) + ")"}; throw Bug{"memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at unmapped address " + hex(a)}; }
        if (o->freed) throw Bug{"memory", std::string(write ? "write" : "read") + " after free"};
        if (n > o->size || a - o->base > o->size - n) throw Bug{"memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(a - o->base) + " of object of " + std::to_string(o->size) + " bytes" + (o->name.empty() ? "" : " (" + o->name + ")")};
        if (write && o->ro) throw Bug{"memory", "write to constant " + o->name};
        if (S->th.size() > 1 && n) raceAccess(a, n, write);
        if (write) return wr(S, o);
        return o;
    }
    uint64_t allocHeap(uint64_t n, const char *nm = "") {
        uint64_t base = (S->nextHeap + 31) & ~31ULL; S->nextHeap = base + n + 64;
        Obj *o = new Obj(); o->base = base; o->size = n; o->b.assign(n, 0xBE); o->name = nm; S->heap.push_back(OR(o)); return base;
    }
    // the calling thread's copy of a thread-local variable
    uint64_t tlsAddr(uint64_t a) {
        if (!S->cur) return a;
        auto g = gbyaddr.find(a); if (g == gbyaddr.end() || !g->second->isThreadLocal()) return a;
        auto &m = S->th[S->cur].tls; auto it = m.find(g->second); if (it != m.end()) return it->second;
        auto &img = tlsImage[g->second]; uint64_t p = allocHeap(img.size(), "thread-local"); S->heap.back().o->b = img; m[g->second] = p; return p;
    }
    uint64_t allocStk(uint64_t n, uint64_t al) {
        uint64_t al2 = std::max<uint64_t>(al, 32); uint64_t base = (S->nextStk + al2 - 1) & ~(al2 - 1); S->nextStk = base + n + 64;
        Obj *o = new Obj(); o->base = base; o->size = n; o->kind = 1; o->b.assign(n, 0xBE); S->stk.push_back(OR(o)); return base;
    }
    void freeHeap(uint64_t a, const char *fn) {
        if (!a) return; Obj *o = find(S, a);
        if (!o || o->base != a || o->kind != 0) throw Bug{"memory", std::string("invalid ") + fn + " of " + hex(a)};
        if (o->freed) throw Bug{"memory", std::string("double free (") + fn + ")"};
        if (S->th.size() > 1 && o->size) { raceAccess(a, o->size, true); Race &r = race(); for (uint64_t g = a >> 3; g <= (a + o->size - 1) >> 3; ++g) r.sh.erase(g); }
        o = wr(S, o); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); delete o->s; o->s = nullptr;
    }
    static void setSym(Obj *o, uint64_t off, Expr *e, unsigned i) { if (!o->s) { o->s = new std::vector<SB>(o->size, SB{nullptr, 0}); } auto &s = (*o->s)[off]; if (!s.e) o->nsym++; s.e = e; s.i = (uint8_t) i; }
    static void clrSym(Obj *o, uint64_t off) { if (!o->s) return; auto &s = (*o->s)[off]; if (s.e) { s.e = nullptr; if (--o->nsym == 0) { delete o->s; o->s = nullptr; } } }
    Val loadAt(Obj *o, uint64_t off, TI *t) {
        unsigned n = (unsigned) ((t->w + 7) / 8);
        bool anySym = false;
        if (o->s) for (unsigned i = 0; i < n; ++i) if ((*o->s)[off + i].e) { anySym = true; break; }
        if (!anySym) {
            if (n <= 8) { uint64_t x = 0; memcpy(&x, &o->b[off], n); return Val::con(t->w < 64 ? x & msk(t->w) : x); }
            APInt v(t->w, 0); for (unsigned i = 0; i < n; ++i) v |= APInt(t->w, o->b[off + i]).shl(8 * i);
            return Val::ex(EM->cst(v));
        }
        Expr *f = (*o->s)[off].e;
        if (f && f->real) {
            bool ok = true; for (unsigned i = 0; i < n; ++i) ok = ok && (*o->s)[off + i].e == f && (*o->s)[off + i].i == i;
            // element size token is i-range: stored n bytes
            if (ok && ((off + n >= o->size) || !((*o->s)[off + n].e == f && (*o->s)[off + n].i == n))) return Val::ex(f);
            throw Unsup{"type punning of a Real-mode float"};
        }
        if (f && f->w == 8 * n) { bool ok = true; for (unsigned i = 0; i < n; ++i) ok = ok && (*o->s)[off + i].e == f && (*o->s)[off + i].i == i; if (ok) return Val::ex(t->w < 8 * n ? EM->extract(f, 0, t->w) : f); }
        Expr *r = nullptr;
        for (int i = (int) n - 1; i >= 0; --i) {
            auto &s = (*o->s)[off + i]; Expr *b;
            if (s.e) { if (s.e->real) throw Unsup{"type punning of a Real-mode float"}; b = EM->extract(s.e, 8 * s.i, 8); } else b = EM->cst(8, o->b[off + i]);
            r = r ? EM->concat(r, b) : b;
        }
        if (t->w < 8 * n) r = EM->extract(r, 0, t->w);
        return Val::ex(r);
    }
    void storeAt(Obj *o, uint64_t off, const Val &v, TI *t) {
        unsigned n = (unsigned) ((t->w + 7) / 8);
        if (v.k == Val::C || v.k == Val::U) { uint64_t x = v.k == Val::C ? v.c : 0; if (t->w < 64) x &= msk(t->w); for (unsigned i = 0; i < n; ++i) { o->b[off + i] = i < 8 ? (uint8_t) (x >> (8 * i)) : 0; if (o->s) clrSym(o, off + i); } return; }
        if (v.k == Val::A) throw Unsup{"store agg as scalar"};
        Expr *e = v.e();
        if (!e->real && e->isConst()) { for (unsigned i = 0; i < n; ++i) { unsigned lo = 8 * i, c = std::min(8u, e->w - lo); o->b[off + i] = (uint8_t) e->big->extractBitsAsZExtValue(c, lo); if (o->s) clrSym(o, off + i); } return; }
        if (!e->real && t->w < 8 * n) e = EM->zext(e, 8 * n);
        for (unsigned i = 0; i < n; ++i) {
            if (!e->real && (e->op == Op::ZExt || e->op == Op::Concat)) { Expr *b = EM->extract(e, 8 * i, 8); if (b->isConst()) { o->b[off + i] = (uint8_t) b->c64(); if (o->s) clrSym(o, off + i); continue; } }
            setSym(o, off + i, e, i);
        }
    }
    Val loadT(uint64_t a, TI *t) {
        switch (t->k) {
            case TI::Int: case TI::Flt: case TI::Ptr: { if (t->w == 80) throw Unsup{"x86_fp80"}; unsigned n = (t->w + 7) / 8; Obj *o = access(a, n, false); return loadAt(o, a - o->base, t); }
            case TI::Vec: case TI::Arr: {
                std::vector<Val> v; v.reserve(t->n); 
                if (t->k == TI::Vec && t->el[0]->w < 8) { // bit vector
                    TI *it = ti(IntegerType::get(LC, (unsigned) (t->n * t->el[0]->w))); Val x = loadT(a, it); for (unsigned i = 0; i < t->n; ++i) { if (x.k == Val::C) v.push_back(Val::con((x.c >> i) & 1)); else v.push_back(Val::ex(EM->extract(x.e(), i, 1))); } return Val::agg(std::move(v)); }
                uint64_t es = t->k == TI::Vec ? t->el[0]->size : t->el[0]->alloc; for (uint64_t i = 0; i < t->n; ++i) v.push_back(loadT(a + i * es, t->el[0])); return Val::agg(std::move(v)); }
            case TI::Struct: { std::vector<Val> v; for (unsigned i = 0; i < t->n; ++i) v.push_back(loadT(a + t->off[i], t->el[i])); return Val::agg(std::move(v)); }
            default: throw Unsup{"load of type"};
        }
    }
    void storeT(uint64_t a, const Val &v, TI *t) {
        switch (t->k) {
            case TI::Int: case TI::Flt: case TI::Ptr: { if (t->w == 80) throw Unsup{"x86_fp80"}; unsigned n = (t->w + 7) / 8; Obj *o = access(a, n, true); storeAt(o, a - o->base, v, t); return; }
            case TI::Vec: case TI::Arr: { uint64_t es = t->k == TI::Vec ? t->el[0]->size : t->el[0]->alloc;
                if (t->k == TI::Vec && t->el[0]->w < 8) throw Unsup{"store bit vector"};
                for (uint64_t i = 0; i < t->n; ++i) storeT(a + i * es, v.k == Val::A ? v.a()[i] : Val(), t->el[0]); return; }
            case TI::Struct: for (unsigned i = 0; i < t->n; ++i) storeT(a + t->off[i], v.k == Val::A ? v.a()[i] : Val(), t->el[i]); return;
            default: throw Unsup{"store of type"};
        }
    }
    // symbolic address load as an ITE over the single object it must fall in
    bool symLoad(Expr *ae, TI *t, Val &out) {
        if (t->k != TI::Int && t->k != TI::Flt && t->k != TI::Ptr) return false;
        if (!S->model) { std::shared_ptr<z3::model> m; Res r = check(S, EM->tru(), &m); if (r != Sat) return false; S->model = m; }
        EM->prepare(ae);
        uint64_t u; if (!S->model->eval(z3::expr(EM->ctx, EM->z(ae)), true).is_numeral_u64(u)) return false;
        Obj *o = find(S, u); if (!o || o->freed) return false;
        unsigned n = (t->w + 7) / 8; if (o->size < n || o->size > 4096) return false;
        if (u + n > o->base + o->size) return false;
        Expr *off = EM->sub(ae, EM->cst(64, o->base));
        Expr *inb = EM->cmp(Op::Ule, off, EM->cst(64, o->size - n));
        if (may(S, EM->bnot(inb))) return false; // some value is outside: enumerate (and report)
        // stride detection: offset = base + k*scale
        uint64_t step = 1; { Expr *x = off; uint64_t c0 = 0; if (x->op == Op::Add && x->k[1]->isConst()) { c0 = x->k[1]->c64(); x = x->k[0]; } if (x->op == Op::Mul && x->k[1]->isConst()) { uint64_t s = x->k[1]->c64(); uint64_t p2 = s & -s; if (p2 && c0 % p2 == 0) step = p2; } else if (x->op == Op::Concat && 0) {} (void) c0; }
        if (step < n && n > 1 && o->size / step > 512) return false;
        if (o->size / step > 1024) return false;
        uint64_t maxo = o->size - n; Val acc; bool first = true; bool real = false;
        std::vector<std::pair<uint64_t, Val>> cand;
        for (uint64_t k = 0; k <= maxo; k += step) { Val v; v = loadAt(o, k, t); if (v.isReal()) real = true; cand.push_back({k, v}); }
        if (cand.size() > 64) { // drop impossible offsets is too expensive; balanced tree on offset bits
        }
        std::function<Expr *(size_t, size_t)> tree = [&](size_t a, size_t b) -> Expr * {
            if (b - a == 1) return real ? R(cand[a].second, t->w) : E(cand[a].second, t->w);
            size_t m = (a + b) / 2; Expr *l = tree(a, m), *r = tree(m, b);
            if (l == r) return l;
            return EM->ite(EM->cmp(Op::Ult, off, EM->cst(64, cand[m].first)), l, r);
        };
        (void) acc; (void) first;
        out = Val::ex(tree(0, cand.size()));
        return true;
    }

    // -------------------------------------------------------------- constants
    uint64_t fnAddress(const Function *F) {
        auto it = addrFn.find(F); if (it != addrFn.end()) return it->second;
        uint64_t a = 0x10000 + 16 * (addrFn.size() + 1); addrFn[F] = a; fnAddr[a] = (Function *) F; return a;
    }
    Val constant(const Constant *C) {
        Type *T = C->getType(); TI *t = ti(T);
        if (auto CI = dyn_cast<ConstantInt>(C)) { if (t->w <= 64) return Val::con(CI->getZExtValue()); return Val::ex(EM->cst(CI->getValue())); }
        if (auto CF = dyn_cast<ConstantFP>(C)) { if (t->w > 64) return Val::con(0); return Val::con(CF->getValueAPF().bitcastToAPInt().getZExtValue()); }
        if (isa<ConstantPointerNull>(C)) return Val::con(0);
        if (isa<UndefValue>(C)) { if (t->k == TI::Vec || t->k == TI::Struct || t->k == TI::Arr) { std::vector<Val> v; for (uint64_t i = 0; i < t->n; ++i) v.push_back(constant(UndefValue::get((t->k == TI::Struct ? t->el[i] : t->el[0])->T))); return Val::agg(std::move(v)); } return Val::con(0); }
        if (isa<ConstantAggregateZero>(C)) { std::vector<Val> v; for (uint64_t i = 0; i < t->n; ++i) v.push_back(constant(Constant::getNullValue((t->k == TI::Struct ? t->el[i] : t->el[0])->T))); return Val::agg(std::move(v)); }
        if (auto D = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> v; for (unsigned i = 0; i < D->getNumElements(); ++i) v.push_back(constant(D->getElementAsConstant(i))); return Val::agg(std::move(v)); }
        if (auto A = dyn_cast<ConstantAggregate>(C)) { std::vector<Val> v; for (unsigned i = 0; i < A->getNumOperands(); ++i) v.push_back(constant(A->getOperand(i))); return Val::agg(std::move(v)); }
        if (auto GA = dyn_cast<GlobalAlias>(C)) return constant(GA->getAliasee());
        if (auto F = dyn_cast<Function>(C)) return Val::con(fnAddress(F));
        if (auto G = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) throw Unsup{"unknown global " + G->getName().str()}; return Val::con(it->second); }
        if (auto CE = dyn_cast<ConstantExpr>(C)) {
            switch (CE->getOpcode()) {
                case Instruction::GetElementPtr: { APInt off(64, 0); auto G = cast<GEPOperator>(CE); if (!G->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"}; return Val::con(constant(CE->getOperand(0)).c + off.getSExtValue()); }
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val v = constant(CE->getOperand(0)); if (t->w && t->w < 64 && v.k == Val::C) v.c &= msk(t->w); return v; }
                case Instruction::Trunc: { Val v = constant(CE->getOperand(0)); v.c &= msk(t->w); return v; }
                case Instruction::Add: return Val::con((constant(CE->getOperand(0)).c + constant(CE->getOperand(1)).c) & msk(t->w));
                case Instruction::Sub: return Val::con((constant(CE->getOperand(0)).c - constant(CE->getOperand(1)).c) & msk(t->w));
                case Instruction::ICmp: { uint64_t a = constant(CE->getOperand(0)).c, b = constant(CE->getOperand(1)).c; return Val::con(CE->getPredicate() == CmpInst::ICMP_EQ ? a == b : CE->getPredicate() == CmpInst::ICMP_NE ? a != b : CE->getPredicate() == CmpInst::ICMP_UGT ? a > b : a < b); }
                default: throw Unsup{"const expr " + std::string(CE->getOpcodeName())};
            }
        }
        throw Unsup{"constant kind"};
    }
    void initGlobals() {
        uint64_t next = 0x1000000;
        for (auto &G : M->globals()) {
            TI *t = ti(G.getValueType()); uint64_t sz = G.getValueType()->isSized() ? t->alloc : 0;
            uint64_t al = std::max<uint64_t>(32, G.getAlign() ? G.getAlign()->value() : 1);
            if (!G.hasInitializer() && sz < 64) sz = 64;
            next = (next + al - 1) & ~(al - 1); gaddr[&G] = next; gbyaddr[next] = &G;
            Obj *o = new Obj(); o->base = next; o->size = sz; o->kind = 2; o->b.assign(sz, 0); o->name = G.getName().str(); S->glob.push_back(OR(o)); next += sz + 64;
        }
        for (auto &G : M->globals()) if (G.hasInitializer()) {
            if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used" || G.getName() == "llvm.global_dtors") continue;
            uint64_t a = gaddr[&G]; TI *t = ti(G.getValueType());
            if (!t->size) continue;
            if (isa<ConstantAggregateZero>(G.getInitializer())) {}
            else if (auto D = dyn_cast<ConstantDataSequential>(G.getInitializer())) { StringRef r = D->getRawDataValues(); Obj *o = find(S, a); memcpy(o->b.data(), r.data(), r.size()); }
            else storeT(a, constant(G.getInitializer()), t);
            if (G.isConstant()) find(S, a)->ro = true;
        }
        for (auto &G : M->globals()) if (G.isThreadLocal()) tlsImage[&G] = find(S, gaddr[&G])->b;
    }

    // -------------------------------------------------------------- decode
#include "builtins_list.h"
    FnInfo *fn(Function *F) {
        auto it = fns.find(F); if (it != fns.end()) return it->second;
        FnInfo *f = new FnInfo(); f->F = F; f->name = F->getName().str(); fns[F] = f;
        std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> cidx; std::unordered_map<const BasicBlock *, int> bidx; 
        for (auto &A : F->args()) { f->args.push_back(f->nslots); slot[&A] = f->nslots++; }
        for (auto &B : *F) { bidx[&B] = (int) bidx.size(); for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = f->nslots++; }
        auto opnd = [&](const Value *V) -> int {
            if (auto C = dyn_cast<Constant>(V)) { auto i = cidx.find(C); if (i != cidx.end()) return i->second;
                Val v; try { v = constant(C); } catch (Unsup &u) { if (verbose) std::cerr << "const unsup: " << u.msg << "\n"; } int id = -1 - (int) f->consts.size(); f->consts.push_back(v); cidx[C] = id;
                auto G = C->getType()->isPointerTy() ? dyn_cast<GlobalVariable>(getUnderlyingObject(C)) : nullptr; if (G && !G->isThreadLocal()) G = nullptr; f->tls.push_back(G); if (G) f->hasTls = true; return id; }
            if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return INT32_MIN;
            return slot.at(V);
        };
        f->bb.resize(bidx.size());
        for (auto &B : *F) {
            BBInfo &bi = f->bb[bidx[&B]]; bi.B = &B;
            for (auto &I : B) {
                if (auto P = dyn_cast<PHINode>(&I)) { Phi ph; ph.dst = slot[&I]; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) ph.in.push_back({bidx[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))}); bi.phis.push_back(ph); continue; }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                DI d; d.op = I.getOpcode(); d.I = &I; d.t = ti(I.getType()); d.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
                if (auto G = dyn_cast<GetElementPtrInst>(&I)) {
                    d.o.push_back(opnd(G->getPointerOperand())); int64_t c = 0;
                    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                        Value *ix = gi.getOperand();
                        if (StructType *ST = gi.getStructTypeOrNull()) { c += DL->getStructLayout(ST)->getElementOffset((unsigned) cast<ConstantInt>(ix)->getZExtValue()); }
                        else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue(); if (auto ci = dyn_cast<ConstantInt>(ix)) c += ci->getSExtValue() * (int64_t) sz; else { d.gep.push_back({opnd(ix), sz}); d.idx.push_back(ix->getType()->isIntegerTy() ? ix->getType()->getIntegerBitWidth() : 64); } }
                    }
                    d.imm = (uint64_t) c;
                    if (I.getType()->isVectorTy()) d.op = 9999;
                } else if (auto CB = dyn_cast<CallBase>(&I)) {
                    for (auto &a : CB->args()) d.o.push_back(opnd(a.get()));
                    d.callee = CB->getCalledFunction();
                    if (!d.callee) { if (auto GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) d.callee = dyn_cast<Function>(GA->getAliaseeObject()); }
                    if (!d.callee) d.o.push_back(opnd(CB->getCalledOperand()));
                    if (auto IV = dyn_cast<InvokeInst>(CB)) { d.bb = {bidx[IV->getNormalDest()], bidx[IV->getUnwindDest()]}; }
                    if (d.callee) d.builtin = builtinId(d.callee);
                    if (CB->isInlineAsm()) d.builtin = -3;
                } else {
                    for (auto &u : I.operands()) { if (isa<BasicBlock>(u.get())) continue; d.o.push_back(opnd(u.get())); }
                    if (auto Br = dyn_cast<BranchInst>(&I)) for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) d.bb.push_back(bidx[Br->getSuccessor(i)]);
                    if (auto Sw = dyn_cast<SwitchInst>(&I)) { d.o = {opnd(Sw->getCondition())}; d.t0 = ti(Sw->getCondition()->getType()); d.bb.push_back(bidx[Sw->getDefaultDest()]); for (auto &cs : Sw->cases()) d.cases.push_back({constant(cs.getCaseValue()), bidx[cs.getCaseSuccessor()]}); }
                    if (auto Cm = dyn_cast<CmpInst>(&I)) { d.pred = Cm->getPredicate(); d.t0 = ti(Cm->getOperand(0)->getType()); }
                    if (isa<CastInst>(&I) || isa<StoreInst>(&I) || isa<FreezeInst>(&I)) d.t0 = ti(I.getOperand(0)->getType());
                    if (isa<ReturnInst>(&I) && I.getNumOperands()) d.t0 = ti(I.getOperand(0)->getType());
                    if (auto Al = dyn_cast<AllocaInst>(&I)) { d.t0 = ti(Al->getAllocatedType()); d.imm = Al->getAlign().value(); }
                    if (auto Ev = dyn_cast<ExtractValueInst>(&I)) for (auto x : Ev->indices()) d.idx.push_back(x);
                    if (auto Iv = dyn_cast<InsertValueInst>(&I)) for (auto x : Iv->indices()) d.idx.push_back(x);
                    if (auto Sh = dyn_cast<ShuffleVectorInst>(&I)) { for (int x : Sh->getShuffleMask()) d.mask.push_back(x); d.t0 = ti(Sh->getOperand(0)->getType()); }
                    if (isa<ExtractElementInst>(&I) || isa<InsertElementInst>(&I)) d.t0 = ti(I.getOperand(0)->getType());
                    if (isa<SelectInst>(&I)) d.t0 = ti(I.getOperand(0)->getType());
                    if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) d.t0 = ti(I.getOperand(1)->getType());
                }
                bi.ins.push_back(std::move(d));
            }
        }
        f->decoded = true; return f;
    }
    Val tlsRing[64]; unsigned tlsAt = 0;
    // clang names thread-local variables directly in their initializers: there, too, the calling thread's copy is meant
    const Val &tlsGet(Frame &fr, int o) { auto G = fr.f->tls[-1 - o]; const Val &c = fr.f->consts[-1 - o]; if (!G) return c; Val &v = tlsRing[tlsAt++ & 63]; uint64_t a = gaddr[G]; v = Val::con(tlsAddr(a) + (c.c - a)); return v; }
    inline const Val &get(Frame &fr, int o) { return o >= 0 ? fr.r[o] : fr.f->hasTls && S->cur ? tlsGet(fr, o) : fr.f->consts[-1 - o]; }
    inline Frame &top() { return S->th[S->cur].st.back(); }

#include "ops.h"
#include "builtins.h"

    // -------------------------------------------------------------- calls
    void enter(Function *F, std::vector<Val> &&args, int dst, int normal, int unwind, uint8_t special = 0) {
        FnInfo *f = fn(F); f->hits++;
        auto &st = S->th[S->cur].st;
        if (st.size() > 400) throw Bug{"recursion", "call depth exceeds 400"};
        st.emplace_back(); Frame &fr = st.back();
        fr.f = f; fr.r.resize(f->nslots); fr.retDst = dst; fr.normal = normal; fr.unwind = unwind; fr.special = special;
        for (size_t i = 0; i < f->args.size() && i < args.size(); ++i) fr.r[f->args[i]] = std::move(args[i]);
        for (size_t i = f->args.size(); i < args.size(); ++i) fr.va.push_back(std::move(args[i]));
        // byval
        for (unsigned i = 0; i < F->arg_size(); ++i) if (F->hasParamAttribute(i, Attribute::ByVal)) {
            TI *t = ti(F->getParamByValType(i)); uint64_t src = fr.r[f->args[i]].c, a = allocStk(t->alloc, 16); copyMem(a, src, t->alloc); fr.r[f->args[i]] = Val::con(a); fr.allocas.push_back(a); }
        if (f->bb.empty()) throw Unsup{"call to external " + f->name};
    }
    void popAllocas(Frame &fr) {
        for (auto a : fr.allocas) { size_t n = S->stk.size(); // usually at the end
            size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; if (S->stk[m]->base <= a) lo = m + 1; else hi = m; }
            if (lo && S->stk[lo - 1]->base == a) S->stk.erase(S->stk.begin() + (lo - 1)); }
    }
    void jump(Frame &fr, int b) {
        fr.prev = fr.bb; fr.bb = b; fr.ip = 0; BBInfo &bi = fr.f->bb[b];
        if (bi.phis.empty()) return;
        std::vector<Val> tmp; tmp.reserve(bi.phis.size());
        for (auto &p : bi.phis) { bool ok = false; for (auto &x : p.in) if (x.first == fr.prev) { tmp.push_back(get(fr, x.second)); ok = true; break; } if (!ok) throw Unsup{"phi"}; }
        for (size_t i = 0; i < tmp.size(); ++i) fr.r[bi.phis[i].dst] = std::move(tmp[i]);
    }
    void ret(const Val &v) {
        auto &st = S->th[S->cur].st; Frame fr = std::move(st.back()); st.pop_back(); popAllocas(fr);
        if (st.empty()) { S->th[S->cur].status = 4; threadDone(v); return; }
        if (fr.special) { afterSpecial(fr.special, fr); return; }
        Frame &c = st.back();
        if (fr.retDst >= 0) c.r[fr.retDst] = v;
        if (fr.normal >= 0) jump(c, fr.normal); else c.ip++;
    }
    // complete a builtin call at current instruction with value v
    void done(DI &d, const Val &v) {
        Frame &fr = top(); if (d.dst >= 0) fr.r[d.dst] = v;
        if (!d.bb.empty()) jump(fr, d.bb[0]); else fr.ip++;
    }
    bool tiDerives(uint64_t t, uint64_t base, int64_t &adj, int depth = 0) {
        if (t == base) { return true; }
        if (depth > 20) return false;
        // fundamental: read vtable pointer to determine kind
        auto g = gbyaddr.find(t); if (g == gbyaddr.end()) return false;
        if (auto bg = gbyaddr.find(base); bg != gbyaddr.end() && bg->second->getName() == g->second->getName()) return true;
        Obj *o = find(S, t); uint64_t vt = 0; memcpy(&vt, &o->b[0], 8);
        auto v = gbyaddr.upper_bound(vt); if (v == gbyaddr.begin()) return false; --v; StringRef nm = v->second->getName();
        if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") { uint64_t b; memcpy(&b, &o->b[16], 8); return tiDerives(b, base, adj, depth + 1); }
        if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { uint32_t n; memcpy(&n, &o->b[20], 4); for (uint32_t i = 0; i < n; ++i) { uint64_t b; int64_t fl; memcpy(&b, &o->b[24 + 16 * i], 8); memcpy(&fl, &o->b[32 + 16 * i], 8); if (!(fl & 2)) continue; int64_t a2 = adj + (fl >> 8); if (tiDerives(b, base, a2, depth + 1)) { adj = a2; return true; } } }
        return false;
    }
    int selectorOf(uint64_t tiaddr) { return (int) ((tiaddr >> 3) & 0x3fffffff); }
    // unwind with exception object; frames popped until an invoke with matching pad is found
    void unwind(uint64_t exc) {
        auto &T = S->th[S->cur];
        // phase 1: is there a handler?  (if not: terminate)
        while (true) {
            if (T.st.empty()) throw Bug{"exception", "uncaught exception"};
            Frame fr = std::move(T.st.back()); T.st.pop_back(); popAllocas(fr);
            if (T.st.empty()) throw Bug{"exception", "uncaught exception of type " + excName(exc)};
            if (fr.special) continue;
            if (fr.f->F->doesNotThrow() && fr.unwind < 0) { /* nounwind function would terminate */ }
            if (fr.unwind < 0) continue;
            Frame &c = T.st.back();
            jump(c, fr.unwind);
            // landingpad must be the first instruction
            BBInfo &bi = c.f->bb[c.bb]; 
            auto LP = dyn_cast<LandingPadInst>(bi.ins[0].I); if (!LP) throw Unsup{"no landingpad"};
            int sel = 0; bool enterPad = LP->isCleanup(); int64_t adj = 0;
            for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
                if (LP->isCatch(i)) { Constant *cl = LP->getClause(i); if (cl->isNullValue()) { enterPad = true; sel = 0x3fffffff; break; }
                    uint64_t ct = constant(cl).c; adj = 0; if (tiDerives(S->exc[exc].ti, ct, adj)) { enterPad = true; sel = selectorOf(ct); break; } }
                else { Constant *fc = LP->getClause(i); if (fc->getType()->getArrayNumElements() == 0) { throw Bug{"exception", "exception escapes a noexcept/throw() function"}; } }
            }
            if (!enterPad) continue;
            c.excIn = exc; c.selIn = sel;
            c.r[bi.ins[0].dst] = Val::agg({Val::con(exc), Val::con((uint32_t) sel)});
            c.ip = 1; return;
        }
    }
    std::string excName(uint64_t exc) { auto g = gbyaddr.find(S->exc[exc].ti); return g == gbyaddr.end() ? "?" : demangle(g->second->getName().str()); }

    // -------------------------------------------------------------- main loop
    void report(const Bug &b) {
        Violation v; v.kind = b.kind; v.msg = b.msg; v.where = where(); if (v.where.empty()) v.where = "thrown at " + S->thrownAt; v.trace = S->trace;
        std::shared_ptr<z3::model> m; 
        // prefer small values: add soft bounds one at a time
        State tmp(*S);
        niceModel(&tmp, m);
        for (auto &i : S->in) v.in.push_back({i, valueOf(i, m.get())});
        viol.push_back(v);
        if (verbose) { std::cerr << "VIOL " << v.kind << ": " << v.msg << "\n   at " << v.where << "\n"; for (auto &i : v.in) std::cerr << "   " << i.first.name << " = " << i.second << "\n"; }
    }
    void sample() { // write out the inputs of a few completed paths
        if (samples.size() >= 4 || S->in.empty() || (npaths > 4 && (npaths & (npaths - 1)))) return;
        std::shared_ptr<z3::model> m; if (check(S, EM->tru(), &m) != Sat) return;
        std::string o; unsigned k = 0; for (auto &i : S->in) { if (++k > 24) { o += " ..."; break; } o += (k > 1 ? " " : "") + i.name + "=" + valueOf(i, m.get()); } samples.push_back(o);
    }
    void niceModel(State *st, std::shared_ptr<z3::model> &m) {
        std::shared_ptr<z3::model> best; Res r = check(st, EM->tru(), &best); if (r != Sat) { m = st->model ? st->model : best; return; }
        m = best; unsigned tries = 0;
        bool anyReal = false; for (auto &i : st->in) if (i.e && i.e->real) anyReal = true;
        if (anyReal) { // make reals integers in [-8,8] when possible
            std::vector<z3::expr> add; z3::solver s(EM->ctx); z3::params p(EM->ctx); p.set("timeout", 20000u); s.set(p);
            for (auto e : st->pc) { EM->prepare(e); s.add(z3::expr(EM->ctx, EM->zb(e))); }
            unsigned id = 0;
            for (auto &i : st->in) if (i.e && i.e->real) { z3::expr n = EM->ctx.int_const(("nice" + std::to_string(id++)).c_str()); s.add(z3::to_real(n) == z3::expr(EM->ctx, EM->z(i.e)) && n >= -8 && n <= 8); }
            try { if (s.check() == z3::sat) m = std::make_shared<z3::model>(s.get_model()); } catch (z3::exception &) {}
            return;
        }
        for (auto &i : st->in) if (i.e && tries < 40) { 
            uint64_t lim[] = {0, 1, 16}; for (uint64_t L : lim) { if (i.w < 5 && L > 1) break; Expr *c = EM->cmp(Op::Ule, EM->bin(Op::Add, i.e, EM->cst(i.w, L)), EM->cst(i.w, 2 * L)); if (c->isConst()) continue; tries++; std::shared_ptr<z3::model> mm; if (check(st, c, &mm) == Sat) { addPC(st, c); m = mm; break; } } }
    }
    std::string valueOf(const Input &i, z3::model *m) {
        if (!i.e) return std::to_string(i.c);
        if (!m) return "0";
        EM->prepare(i.e);
        z3::expr v = m->eval(z3::expr(EM->ctx, EM->z(i.e)), true);
        if (i.e->real) { std::string s = v.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return s; }
        uint64_t u; if (v.is_numeral_u64(u)) return std::to_string(u); return Z3_get_numeral_string(EM->ctx, v);
    }
    void runState() {
        while (true) {
            Thread &T = S->th[S->cur];
            if (T.status != 0) { if (!schedule()) return; continue; }
            Frame &fr = T.st.back();
            BBInfo &bi = fr.f->bb[fr.bb]; DI &d = bi.ins[fr.ip];
            ninstr++; if (++S->steps > maxSteps) throw Bug{"nontermination", "more than " + std::to_string(maxSteps) + " instructions on one path"};
            if ((ninstr & 0xffff) == 0) { if (now() - t0 > timeout) { throw Unsup{"time budget exhausted"}; } }
            step(fr, d);
        }
    }
    void runAll() {
        while (!work.empty()) {
            S = work.back(); work.pop_back();
            bool fatal = false;
            try { runState(); npaths++; sample(); }
            catch (Term &t) { ndead++; if (verbose && t.why != "assume") std::cerr << "path end: " << t.why << "\n"; }
            catch (Bug &b) { try { report(b); } catch (z3::exception &e) { incomplete.push_back(std::string("z3 ") + e.msg()); } npaths++; }
            catch (std::length_error &e) { incomplete.push_back(std::string("executor: ") + e.what() + " at " + where()); if (incomplete.size() > 20) fatal = true; }
            catch (Unsup &u) { incomplete.push_back(u.msg + " at " + where()); if (verbose) std::cerr << "UNSUP " << u.msg << " at " << where() << "\n"; if (incomplete.size() > 20 || u.msg == "time budget exhausted") fatal = true; }
            catch (z3::exception &e) { incomplete.push_back(std::string("z3: ") + e.msg() + " at " + where()); }
            catch (std::runtime_error &e) { incomplete.push_back(std::string("engine: ") + e.what() + " at " + where()); }
            delete S; S = nullptr;
            if (viol.size() >= maxViol || fatal) break;
            if (npaths + ndead > maxPaths) { incomplete.push_back("path limit"); break; }
        }
        if (!work.empty() && viol.empty() && incomplete.empty()) incomplete.push_back("unexplored states left");
    }
    static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
    void writeOut(const std::string &entry) {
        std::ostringstream o; o << "{\n \"entry\": " << js(entry) << ",\n \"paths\": " << npaths << ",\n \"infeasible_or_assumed_away\": " << ndead << ",\n \"forks\": " << nforks << ",\n \"queries\": " << nq << ",\n \"queries_sat\": " << nqsat << ",\n \"queries_unsat\": " << nqunsat << ",\n \"queries_unknown\": " << nqunk << ",\n \"solver_s\": " << tsolve << ",\n \"wall_s\": " << now() - t0 << ",\n \"instructions\": " << ninstr << ",\n \"assertions\": " << nasserts << ",\n \"assertions_constant\": " << nasserttriv << ",\n";
        o << " \"reached\": ["; bool f = true; for (auto &r : reached) { o << (f ? "" : ", ") << js(r); f = false; } o << "],\n";
        o << " \"samples\": ["; f = true; for (auto &r : samples) { o << (f ? "" : ", ") << js(r); f = false; } o << "],\n";
        o << " \"incomplete\": ["; f = true; std::set<std::string> inc(incomplete.begin(), incomplete.end()); for (auto &r : inc) { o << (f ? "" : ", ") << js(r); f = false; } o << "],\n";
        o << " \"functions\": ["; f = true; for (auto &p : fns) if (p.second->hits) { std::string n = demangle(p.second->name); if (n.find("ts::") == std::string::npos && n.find("AES") == std::string::npos && n.find("tennis") == std::string::npos && n.find("ts_") == std::string::npos) continue; if (n.find("std::") == 0 || n.find("void std::") == 0 || n.find("__gnu_cxx") == 0) continue; o << (f ? "" : ", ") << js(n.substr(0, 160)); f = false; } o << "],\n";
        o << " \"violations\": ["; f = true; for (auto &v : viol) { o << (f ? "\n  " : ",\n  ") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"inputs\": ["; bool g = true; for (auto &i : v.in) { o << (g ? "" : ", ") << "{\"name\": " << js(i.first.name) << ", \"type\": \"" << i.first.type << "\", \"w\": " << i.first.w << ", \"value\": " << js(i.second) << "}"; g = false; } o << "], \"trace\": ["; g = true; for (auto &t : v.trace) { o << (g ? "" : ", ") << js(t); g = false; } o << "]}"; f = false; } o << "]\n}\n";
        if (outFile.empty()) std::cout << o.str(); else { std::ofstream of(outFile); of << o.str(); }
    }
    int main2(int argc, char **argv) {
        std::string file, entry; 
        for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
            if (a == "--entry") entry = nx(); else if (a == "--out") outFile = nx(); else if (a == "--timeout") timeout = std::stod(nx()); else if (a == "--qtimeout") qtimeout = std::stoul(nx()); else if (a == "--max-steps") maxSteps = std::stoull(nx()); else if (a == "--max-viol") maxViol = std::stoul(nx()); else if (a == "-v") verbose = true; else if (a == "--preempt") preempt = std::stoi(nx()); else if (a == "--preempt-at") preemptAt = std::stoi(nx()); else if (a == "--spurious") spurious = std::stoi(nx()); else if (a == "--max-paths") maxPaths = std::stoull(nx()); else if (a == "--max-enum") maxEnum = std::stoull(nx()); else file = a; }
        t0 = now();
        ExprMgr em; EM = &em; z3::set_param("model.completion", true);
        slv = new z3::solver(em.ctx, z3::solver::simple()); z3::params p(em.ctx); p.set("timeout", std::min(qtimeout, 6000u)); slv->set(p);
        SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("symex", errs()); return 3; }
        DL = &M->getDataLayout();
        S = new State();
        initGlobals();
        Function *EF = M->getFunction(entry); if (!EF) { std::cerr << "no entry " << entry << "\n"; return 3; }
        // constructors first (priority order), then entry
        std::vector<std::pair<unsigned, Function *>> ctors;
        if (auto G = M->getGlobalVariable("llvm.global_ctors")) if (auto A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &op : A->operands()) { auto st = cast<ConstantStruct>(op); if (auto F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned) cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
        try {
            for (auto &c : ctors) { S->th[0].st.clear(); S->th[0].status = 0; initPhase = true; enter(c.second, {}, -1, -1, -1); 
                while (S->th[0].status == 0) { Frame &fr = top(); DI &d = fr.f->bb[fr.bb].ins[fr.ip]; ninstr++; step(fr, d); } }
        } catch (Bug &b) { std::cerr << "ctor bug: " << b.msg << " at " << where() << "\n"; incomplete.push_back("static initialisation: " + b.msg + " at " + where()); writeOut(entry); return 2; }
        catch (Unsup &u) { std::cerr << "ctor unsup: " << u.msg << " at " << where() << "\n"; incomplete.push_back("static initialisation: " + u.msg + " at " + where()); writeOut(entry); return 2; }
        initPhase = false; if (!work.empty()) { std::cerr << "fork in ctor\n"; return 3; }
        if (verbose) std::cerr << "init done: " << ninstr << " instrs, " << now() - t0 << "s\n";
        for (auto &p : fns) p.second->hits = 0;
        S->steps = 0; S->th[0].st.clear(); S->th[0].status = 0; enter(EF, {}, -1, -1, -1);
        work.push_back(S); S = nullptr;
        runAll();
        writeOut(entry);
        return viol.empty() ? (incomplete.empty() ? 0 : 2) : 1;
    }
    bool initPhase = false;
};

int main(int argc, char **argv) {
    struct rlimit rl{512ul << 20, 512ul << 20}; setrlimit(RLIMIT_STACK, &rl);
    Exec *X = new Exec();
    int r = X->main2(argc, argv);
    fflush(stdout); std::cout.flush();
    _exit(r);
}
