// symx: path-exploring symbolic executor for LLVM 18 bitcode.
//
// Every branch whose condition depends on symbolic input is decided by an SMT
// query under the current path condition; both feasible sides are explored.
// Memory is byte precise with concrete object shapes per path. Verdicts:
//   holds         every feasible path within the bounds satisfies all checks
//   violation     some path violates a check; a concrete assignment is printed
//   inconclusive  a bound (time, steps, solver, unsupported code) was reached
#include "expr.hpp"
#include <cxxabi.h>
#include <chrono>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <pthread.h>
#include <sys/resource.h>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
using Clock = std::chrono::steady_clock;

static ExprCtx X;
using Model = ExprCtx::Model;
using ModelP = std::shared_ptr<const Model>;

// ------------------------------------------------------------------ values
struct Val;
struct Agg { int rc = 0; std::vector<Val> v; };
struct Val {
    u64 c = 0;
    Expr* e = nullptr;
    Agg* g = nullptr;
    Val() = default;
    explicit Val(u64 x) : c(x) {}
    explicit Val(Expr* x) {
        if (x->kind == EConst && x->width <= 64) c = (u64)x->c; else e = x;
    }
    Val(Val const& o) : c(o.c), e(o.e), g(o.g) { if (g) ++g->rc; }
    Val(Val&& o) noexcept : c(o.c), e(o.e), g(o.g) { o.g = nullptr; }
    Val& operator=(Val const& o) {
        if (o.g) ++o.g->rc;
        rel(); c = o.c; e = o.e; g = o.g; return *this;
    }
    Val& operator=(Val&& o) noexcept {
        if (this != &o) { rel(); c = o.c; e = o.e; g = o.g; o.g = nullptr; }
        return *this;
    }
    ~Val() { rel(); }
    void rel() { if (g && --g->rc == 0) delete g; g = nullptr; }
    static Val agg(std::vector<Val> v) { Val r; r.g = new Agg; r.g->rc = 1; r.g->v = std::move(v); return r; }
    bool conc() const { return !e && !g; }
};
static inline Expr* ex(Val const& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }

// ------------------------------------------------------------------ memory
enum ObjKind : u8 { OHeap, OStack, OGlobal, OFunc };
struct Obj {
    int rc = 0;
    u32 size = 0;
    ObjKind kind = OHeap;
    bool ro = false;
    u8* data = nullptr;
    Expr** sym = nullptr;
    const char* tag = nullptr;
    Obj(u32 n, ObjKind k) : size(n), kind(k) { data = (u8*)malloc(n ? n : 1); memset(data, 0xAA, n); }
    Obj(Obj const& o) : size(o.size), kind(o.kind), ro(o.ro), tag(o.tag) {
        data = (u8*)malloc(size ? size : 1); memcpy(data, o.data, size);
        if (o.sym) { sym = (Expr**)malloc(sizeof(Expr*) * (size ? size : 1)); memcpy(sym, o.sym, sizeof(Expr*) * size); }
    }
    ~Obj() { free(data); free(sym); }
    void needSym() { if (!sym) sym = (Expr**)calloc(size ? size : 1, sizeof(Expr*)); }
    Expr* byte(u32 i) { return sym && sym[i] ? sym[i] : X.cst(data[i], 8); }
    void setByte(u32 i, Expr* e) {
        if (e->kind == EConst) { data[i] = (u8)e->c; if (sym) sym[i] = nullptr; }
        else { needSym(); sym[i] = e; }
    }
};
struct ObjP {
    Obj* p = nullptr;
    ObjP() = default;
    ObjP(Obj* o) : p(o) { if (p) ++p->rc; }
    ObjP(ObjP const& o) : p(o.p) { if (p) ++p->rc; }
    ObjP& operator=(ObjP const& o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
    ~ObjP() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
constexpr int RB = 6, RW = 1 << RB, RL = 4; // 4 levels of 64 -> 16M live ids
struct RNode {
    int rc = 0;
    int level;
    union { RNode* ch[RW]; Obj* ob[RW]; };
    RNode(int l) : level(l) { memset(ch, 0, sizeof ch); }
    RNode(RNode const& o) : level(o.level) {
        memcpy(ch, o.ch, sizeof ch);
        for (int i = 0; i < RW; ++i) if (ch[i]) { if (level) ++ch[i]->rc; else ++ob[i]->rc; }
    }
    ~RNode() {
        for (int i = 0; i < RW; ++i) if (ch[i]) {
            if (level) { if (--ch[i]->rc == 0) delete ch[i]; }
            else if (--ob[i]->rc == 0) delete ob[i];
        }
    }
};
struct Space {
    RNode* root;
    Space() : root(new RNode(RL - 1)) { root->rc = 1; }
    Space(Space const& o) : root(o.root) { ++root->rc; }
    ~Space() { if (--root->rc == 0) delete root; }
    Space& operator=(Space const&) = delete;
    Obj* get(u32 id) const {
        if (id >> (RB * RL)) return nullptr;
        RNode* n = root;
        for (int l = RL - 1; l > 0; --l) { n = n->ch[(id >> (l * RB)) & (RW - 1)]; if (!n) return nullptr; }
        return n->ob[id & (RW - 1)];
    }
    Obj** slot(u32 id) {
        if (root->rc > 1) { --root->rc; root = new RNode(*root); root->rc = 1; }
        RNode* n = root;
        for (int l = RL - 1; l > 0; --l) {
            RNode*& c = n->ch[(id >> (l * RB)) & (RW - 1)];
            if (!c) { c = new RNode(l - 1); c->rc = 1; }
            else if (c->rc > 1) { --c->rc; c = new RNode(*c); c->rc = 1; }
            n = c;
        }
        return &n->ob[id & (RW - 1)];
    }
    void set(u32 id, Obj* o) {
        if (id >> (RB * RL)) { fprintf(stderr, "object ids exhausted\n"); exit(3); }
        Obj** s = slot(id);
        if (o) ++o->rc;
        if (*s && --(*s)->rc == 0) delete *s;
        *s = o;
    }
    Obj* getW(u32 id) {
        Obj** s = slot(id);
        if ((*s)->rc > 1) { Obj* n = new Obj(**s); n->rc = 1; --(*s)->rc; *s = n; }
        return *s;
    }
};

// ------------------------------------------------------------------ code
struct KFunction;
struct KInstr {
    Instruction* I;
    unsigned op;
    int dst = -1;
    unsigned width = 0;     // result width in bits (scalars)
    unsigned ow = 0;        // width of operand 0
    std::vector<int> ops;   // >=0 register, <0 constant ~idx
    std::vector<int> succ;  // successor block indexes
    // gep
    i64 gepOff = 0;
    std::vector<std::pair<int, u64>> gepIdx; // operand, scale
    std::vector<unsigned> gepW;
    // call
    Function* callee = nullptr;
    KFunction* kcallee = nullptr;
    int builtin = -1;
    Type* memTy = nullptr;
    u64 memSize = 0;
};
struct KBlock { int first = 0; int firstNonPhi = 0; BasicBlock* bb; };
struct KFunction {
    Function* F = nullptr;
    std::vector<KInstr> ins;
    std::vector<KBlock> blocks;
    int nregs = 0;
    bool prepared = false;
    std::string name;
    u64 entered = 0;
};

struct Frame {
    KFunction* f = nullptr;
    int pc = 0;
    int prevBlock = -1, curBlock = 0;
    std::vector<Val> r;
    std::vector<u32> allocas;
    std::vector<Val> varargs;
};
using FrameP = std::shared_ptr<Frame>;

struct Exc { u64 obj = 0, ti = 0, dtor = 0, adjusted = 0; int refs = 0; int handlers = 0; };

struct Pick { std::string name; Expr* e; };

struct State {
    Space mem;
    std::vector<FrameP> stack;
    u32 nextId;
    std::vector<Expr*> pc;
    ModelP model;
    std::vector<Pick> inputs;
    u64 steps = 0;
    // exceptions
    std::map<u64, Exc> excs;
    std::vector<u64> caught;
    u64 curExc = 0;
    int curSel = 0;
    std::set<int> reached;
    u32 forkDepth = 0;
    int checks = 0;
    State() : nextId(1), model(std::make_shared<Model>()) {}
};

struct PathEnd { };
struct Forked { };   // current state changed position already
struct Unsupported { std::string what; };

// ------------------------------------------------------------------ globals
static Module* M;
static const DataLayout* DL;
static LLVMContext Ctx;
static std::unordered_map<const Function*, KFunction*> kfuncs;
static std::unordered_map<u64, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<Val> consts;
static std::unordered_map<const Constant*, int> constIdx;
static std::vector<std::unique_ptr<State>> work;
static u64 tiSI, tiVMI, tiClass, tiPtr;
static std::map<std::string, int> labelIds;
static std::vector<std::string> labels;
static std::vector<u64> labelHits;

static u64 statQueries, statSat, statUnsat, statCacheHit, statModelHit, statForks, statPaths, statInfeasible, statSteps, statChecks, statCheckQueries, statMaxSteps;
static double statSolver;
static bool inconclusive;
static std::vector<std::string> inconclusiveWhy;
static u64 optMaxSteps = 20000000, optMaxPaths = 100000000;
static double optTime = 600;
static unsigned optSolverMs = 30000;
static int optMaxViol = 1;
static bool optTraceCalls, optQuietUB, optForkSelect;
static std::string optDumpDir;
static Clock::time_point t0;
static std::set<std::string> checkNames;

struct Violation { std::string kind, what, where; std::vector<std::pair<std::string, u64>> inputs; };
static std::vector<Violation> violations;
static std::set<std::string> violKeys;
static std::vector<std::vector<std::pair<std::string, u64>>> samples;

static double elapsed() { return std::chrono::duration<double>(Clock::now() - t0).count(); }
static void giveUp(std::string why) {
    inconclusive = true;
    for (auto& w : inconclusiveWhy) if (w == why) return;
    if (inconclusiveWhy.size() < 20) inconclusiveWhy.push_back(why);
}

// ------------------------------------------------------------------ solver
struct VecHash {
    size_t operator()(std::vector<u32> const& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; }
};
static std::unordered_map<std::vector<u32>, std::pair<int, ModelP>, VecHash> qcache;
static std::deque<ModelP> recent;

static bool satisfies(std::vector<Expr*> const& cs, Model const& m) {
    ++X.epoch;
    for (Expr* c : cs) if (!X.evalRec(c, m)) return false;
    return true;
}
static Z3_solver zcore, zblast;
static int dumpN = 0;
// 1 sat (model set), 0 unsat, -1 unknown
static int solveRaw(std::vector<Expr*> const& cs, VarSet const& vs, Model& out) {
    auto t = Clock::now();
    ++statQueries;
    // the incremental core answers the many small queries; the bit-blasting
    // pipeline takes over those it does not answer within half a second
    auto attempt = [&](Z3_solver& sv, bool blast, unsigned ms) {
        if (!sv) {
            sv = blast ? Z3_mk_solver_for_logic(X.z, Z3_mk_string_symbol(X.z, "QF_FPBV")) : Z3_mk_simple_solver(X.z);
            Z3_solver_inc_ref(X.z, sv);
            Z3_params p = Z3_mk_params(X.z);
            Z3_params_inc_ref(X.z, p);
            Z3_params_set_uint(X.z, p, Z3_mk_string_symbol(X.z, "timeout"), ms);
            Z3_solver_set_params(X.z, sv, p);
            Z3_params_dec_ref(X.z, p);
        }
        Z3_solver_reset(X.z, sv);
        for (Expr* c : cs) Z3_solver_assert(X.z, sv, X.asBool(c));
        return Z3_solver_check(X.z, sv);
    };
    Z3_solver zsolver = nullptr;
    Z3_lbool r = attempt(zcore, false, std::min<unsigned>(optSolverMs, 500));
    zsolver = zcore;
    if (r == Z3_L_UNDEF && optSolverMs > 500) {
        r = attempt(zblast, true, optSolverMs);
        zsolver = zblast;
    }
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (!optDumpDir.empty() && dumpN < 400 && (statQueries % 7 == 0)) {
        std::string fn = optDumpDir + "/q" + std::to_string(dumpN++) + (res == 1 ? ".sat" : res == 0 ? ".unsat" : ".unk") + ".smt2";
        if (FILE* f = fopen(fn.c_str(), "w")) {
            fputs("(set-logic ALL)\n", f); fputs(Z3_solver_to_string(X.z, zsolver), f); fputs("(check-sat)\n", f); fclose(f);
        }
    }
    if (res == 1) {
        ++statSat;
        Z3_model m = Z3_solver_get_model(X.z, zsolver);
        Z3_model_inc_ref(X.z, m);
        if (out.size() < X.vars.size()) out.resize(X.vars.size(), 0);
        for (u32 i = 0; i < X.vars.size(); ++i) if (vs.has(i)) {
            Z3_ast v = X.conv(X.raw(EVar, X.vars[i].width, i)), o = nullptr;
            if (Z3_model_eval(X.z, m, v, true, &o) && o) {
                Z3_inc_ref(X.z, o);
                u64 val = 0;
                if (!Z3_get_numeral_uint64(X.z, o, &val)) { fprintf(stderr, "non numeral model value\n"); exit(3); }
                out[i] = val;
                Z3_dec_ref(X.z, o);
            }
        }
        Z3_model_dec_ref(X.z, m);
        if (!satisfies(cs, out)) { // translator self check
            fprintf(stderr, "internal: solver model does not satisfy constraints\n");
            giveUp("solver model rejected by evaluator");
            res = -1;
        }
    } else if (res == 0) ++statUnsat;
    statSolver += std::chrono::duration<double>(Clock::now() - t).count();
    return res;
}
// is pc && q satisfiable? on success newModel is a full model
static int query(State& s, Expr* q, ModelP& newModel) {
    if (q->kind == EConst) { newModel = s.model; return q->c ? 1 : 0; }
    std::vector<Expr*> cs{q};
    VarSet vs = q->vars;
    std::vector<char> used(s.pc.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); ++i)
            if (!used[i] && s.pc[i]->vars.inter(vs)) { used[i] = 1; vs.add(s.pc[i]->vars); cs.push_back(s.pc[i]); ch = true; }
    }
    std::vector<u32> key;
    for (Expr* c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto merge = [&](Model const& m) {
        auto r = std::make_shared<Model>(*s.model);
        if (r->size() < X.vars.size()) r->resize(X.vars.size(), 0);
        for (u32 i = 0; i < X.vars.size(); ++i) if (vs.has(i)) (*r)[i] = i < m.size() ? m[i] : 0;
        newModel = r;
    };
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        ++statCacheHit;
        if (it->second.first == 1) merge(*it->second.second);
        return it->second.first;
    }
    for (auto& m : recent) if (satisfies(cs, *m)) {
        ++statModelHit;
        qcache[key] = {1, m};
        merge(*m);
        return 1;
    }
    auto out = std::make_shared<Model>();
    int r = solveRaw(cs, vs, *out);
    if (r == 1) {
        recent.push_front(out);
        if (recent.size() > 24) recent.pop_back();
        merge(*out);
    }
    if (r >= 0) qcache[key] = {r, out};
    else giveUp("solver returned unknown");
    return r;
}
static bool evalB(State& s, Expr* c) { return X.eval(c, *s.model) != 0; }
static void addPC(State& s, Expr* c) {
    if (c->kind == EConst) return;
    if (c->kind == EAnd && c->width == 1) { addPC(s, c->a); addPC(s, c->b); return; }
    s.pc.push_back(c);
}

// ------------------------------------------------------------------ reporting
static std::string dem(std::string const& n) { return llvm::demangle(n); }
static std::string shortName(std::string n) { return n.size() > 160 ? n.substr(0, 160) + "..." : n; }
static std::string where(State& s, int depth = 6) {
    std::string r;
    for (int i = (int)s.stack.size() - 1; i >= 0 && depth > 0; --i, --depth) {
        Frame& f = *s.stack[i];
        KInstr& k = f.f->ins[f.pc];
        r += shortName(dem(f.f->name));
        if (auto dl = k.I->getDebugLoc()) {
            auto* sc = dl->getScope();
            r += " (" + sc->getFilename().str() + ":" + std::to_string(dl->getLine()) + ")";
            for (auto* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt())
                r += " <- " + ia->getScope()->getFilename().str() + ":" + std::to_string(ia->getLine());
        }
        r += "\n";
    }
    return r;
}
static std::vector<std::pair<std::string, u64>> inputsOf(State& s, Model const& m) {
    std::vector<std::pair<std::string, u64>> r;
    ++X.epoch;
    for (auto& p : s.inputs) r.emplace_back(p.name, (u64)X.evalRec(p.e, m));
    return r;
}
static void report(State& s, Model const& m, std::string kind, std::string what) {
    std::string w = where(s);
    std::string key = kind + "|" + what;
    if (!violKeys.insert(key).second) return;
    violations.push_back({kind, what, w, inputsOf(s, m)});
}
[[noreturn]] static void fail(State& s, std::string kind, std::string what) {
    report(s, *s.model, kind, what);
    throw PathEnd{};
}

// ------------------------------------------------------------------ state utils
static Frame& topW(State& s) {
    FrameP& f = s.stack.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
}
static std::unique_ptr<State> fork(State& s) {
    ++statForks;
    auto n = std::make_unique<State>(s);
    n->forkDepth = ++s.forkDepth;
    return n;
}
static u64 newObj(State& s, u64 size, ObjKind k) {
    if (size > 0x8000000) { giveUp("allocation larger than 128 MiB"); throw PathEnd{}; }
    u32 id = s.nextId++;
    s.mem.set(id, new Obj((u32)size, k));
    return (u64)id << 32;
}
// splits on cond: the current state continues with cond == returned value
static bool branch(State& s, Expr* c) {
    if (c->kind == EConst) return c->c;
    bool v = evalB(s, c);
    Expr* other = v ? X.bnot(c) : c;
    ModelP nm;
    int r = query(s, other, nm);
    if (r == 1) {
        auto n = fork(s);
        n->model = nm;
        addPC(*n, other);
        work.push_back(std::move(n));
        addPC(s, v ? c : X.bnot(c));
    }
    return v;
}
// assume c on this path; kills the path when infeasible
static void assume(State& s, Expr* c) {
    if (c->kind == EConst) { if (!c->c) { ++statInfeasible; throw PathEnd{}; } return; }
    if (!evalB(s, c)) {
        ModelP nm;
        int r = query(s, c, nm);
        if (r != 1) { ++statInfeasible; throw PathEnd{}; }
        s.model = nm;
    }
    addPC(s, c);
}
// makes v concrete, forking a state per further feasible value (re-executes)
static u64 concretize(State& s, Val const& v, unsigned w) {
    if (!v.e) return v.c;
    u64 x = (u64)X.eval(v.e, *s.model);
    Expr* c = X.eq(v.e, X.cst(x, w));
    if (c->kind == EConst) return x;
    ModelP nm;
    Expr* o = X.bnot(c);
    int r = query(s, o, nm);
    if (r == 1) {
        auto n = fork(s);
        n->model = nm;
        addPC(*n, o);
        work.push_back(std::move(n));
    }
    addPC(s, c);
    return x;
}
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%lx", v); return b; }

struct Loc { u32 id; u64 off; Expr* soff; }; // soff set when symbolic
static Loc resolve(State& s, Val const& p, u64 n, bool write) {
    u64 addr = p.c;
    Expr* soff = nullptr;
    if (p.e) {
        addr = (u64)X.eval(p.e, *s.model);
        Expr* hi = X.extract(p.e, 32, 32);
        Expr* in = X.eq(hi, X.cst(addr >> 32, 32));
        if (in->kind != EConst) {
            ModelP nm;
            if (query(s, X.bnot(in), nm) == 1) {
                auto nst = fork(s);
                nst->model = nm;
                addPC(*nst, X.bnot(in));
                work.push_back(std::move(nst));
                addPC(s, in);
            }
        }
        soff = X.extract(p.e, 0, 32);
        if (soff->kind == EConst) soff = nullptr;
    }
    u32 id = addr >> 32;
    Obj* o = s.mem.get(id);
    if (!o || id == 0) {
        if (id == 0) fail(s, "memory", std::string(write ? "write" : "read") + " through null or invalid pointer");
        fail(s, "memory", std::string(write ? "write" : "read") + " of freed or invalid memory");
    }
    u64 off = addr & 0xffffffffull;
    if (o->kind == OFunc) fail(s, "memory", "access to code");
    if (soff) {
        Expr* ok = o->size >= n ? X.bin(EUle, soff, X.cst(o->size - n, 32)) : X.F;
        if (ok->kind != EConst || !ok->c) {
            ModelP nm;
            int r = query(s, X.bnot(ok), nm);
            if (r == 1) {
                report(s, *nm, "memory", std::string("out of bounds ") + (write ? "write" : "read"));
                assume(s, ok);
                off = X.eval(soff, *s.model) & 0xffffffffull;
            }
        }
        // a single feasible value?
    } else if (off + n > o->size)
        fail(s, "memory", std::string("out of bounds ") + (write ? "write" : "read"));
    if (write && o->ro) fail(s, "memory", "write to constant memory");
    return {id, off, soff};
}
static Expr* readBytes(Obj* o, u64 off, u64 n) {
    Expr* r = nullptr;
    for (u64 i = 0; i < n; ++i) { Expr* b = o->byte(off + i); r = r ? X.concat(b, r) : b; }
    return r;
}
static bool hasSym(Obj* o, u64 off, u64 n) {
    if (!o->sym) return false;
    for (u64 i = 0; i < n; ++i) if (o->sym[off + i]) return true;
    return false;
}
static Val loadBytes(State& s, Val const& p, u64 n, unsigned width) {
    Loc l = resolve(s, p, n, false);
    Obj* o = s.mem.get(l.id);
    Expr* r;
    if (!l.soff) {
        if (n <= 8 && !hasSym(o, l.off, n)) {
            u64 v = 0; memcpy(&v, o->data + l.off, n);
            if (width < 64) v &= (1ull << width) - 1;
            return Val(v);
        }
        r = readBytes(o, l.off, n);
    } else {
        u64 step = 1ull << std::min(12u, X.ctz(l.soff));
        u64 cnt = o->size >= n ? (o->size - n) / step + 1 : 0;
        if (cnt > 1024) {
            u64 x = concretize(s, Val(l.soff), 32);
            r = readBytes(o, x, n);
        } else {
            r = readBytes(o, 0, n);
            for (u64 i = 1; i < cnt; ++i) r = X.ite(X.eq(l.soff, X.cst(i * step, 32)), readBytes(o, i * step, n), r);
        }
    }
    if (width < n * 8) r = X.extract(r, 0, width);
    return Val(r);
}
static void storeBytes(State& s, Val const& p, Val const& v, u64 n, unsigned width) {
    Loc l = resolve(s, p, n, true);
    u64 off = l.off;
    if (l.soff) {
        Obj* o = s.mem.get(l.id);
        u64 step = 1ull << std::min(12u, X.ctz(l.soff));
        u64 cnt = o->size >= n ? (o->size - n) / step + 1 : 0;
        if (cnt > 256) off = concretize(s, Val(l.soff), 32);
        else {
            o = s.mem.getW(l.id);
            Expr* e = X.zext(ex(v, width), n * 8);
            std::vector<Expr*> upd(o->size, nullptr);
            for (u64 i = 0; i < cnt; ++i) {
                Expr* c = X.eq(l.soff, X.cst(i * step, 32));
                for (u64 b = 0; b < n; ++b) {
                    u64 at = i * step + b;
                    upd[at] = X.ite(c, X.extract(e, b * 8, 8), upd[at] ? upd[at] : o->byte(at));
                }
            }
            for (u64 i = 0; i < o->size; ++i) if (upd[i]) o->setByte(i, upd[i]);
            return;
        }
    }
    Obj* o = s.mem.getW(l.id);
    if (!v.e) {
        u64 x = v.c;
        memcpy(o->data + off, &x, n > 8 ? 8 : n);
        if (n > 8) memset(o->data + off + 8, 0, n - 8);
        if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
        return;
    }
    Expr* e = X.zext(v.e, n * 8);
    for (u64 b = 0; b < n; ++b) o->setByte(off + b, X.extract(e, b * 8, 8));
}
static u64 rd64(State& s, u64 a) { Val v = loadBytes(s, Val(a), 8, 64); return concretize(s, v, 64); }
static u32 rd32(State& s, u64 a) { Val v = loadBytes(s, Val(a), 4, 32); return concretize(s, v, 32); }

static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static Val loadTy(State& s, Val const& p, Type* t);
static Val ptrAdd(Val const& p, u64 o) {
    if (!o) return p;
    if (!p.e) return Val(p.c + o);
    return Val(X.bin(EAdd, p.e, X.cst(o, 64)));
}
static Val loadTy(State& s, Val const& p, Type* t) {
    if (unsigned w = widthOf(t)) { return loadBytes(s, p, DL->getTypeStoreSize(t), w); }
    std::vector<Val> r;
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) r.push_back(loadTy(s, ptrAdd(p, sl->getElementOffset(i)), st->getElementType(i)));
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        for (unsigned i = 0; i < at->getNumElements(); ++i) r.push_back(loadTy(s, ptrAdd(p, i * DL->getTypeAllocSize(at->getElementType())), at->getElementType()));
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = widthOf(vt->getElementType());
        if (ew % 8) throw Unsupported{"vector of sub-byte elements in memory"};
        for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(loadTy(s, ptrAdd(p, i * (ew / 8)), vt->getElementType()));
    } else throw Unsupported{"load type"};
    return Val::agg(std::move(r));
}
static void storeTy(State& s, Val const& p, Val const& v, Type* t) {
    if (unsigned w = widthOf(t)) { storeBytes(s, p, v, DL->getTypeStoreSize(t), w); return; }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, ptrAdd(p, sl->getElementOffset(i)), v.g->v[i], st->getElementType(i));
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
        for (unsigned i = 0; i < at->getNumElements(); ++i) storeTy(s, ptrAdd(p, i * DL->getTypeAllocSize(at->getElementType())), v.g->v[i], at->getElementType());
    } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = widthOf(vt->getElementType());
        if (ew % 8) throw Unsupported{"vector of sub-byte elements in memory"};
        for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTy(s, ptrAdd(p, i * (ew / 8)), v.g->v[i], vt->getElementType());
    } else throw Unsupported{"store type"};
}
static Val zeroOf(Type* t) {
    if (unsigned w = widthOf(t)) { if (w > 64) { Val v; v.e = X.cst(0, w); return v; } return Val((u64)0); }
    std::vector<Val> r;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) r.push_back(zeroOf(e)); return Val::agg(r); }
    if (auto* at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); ++i) r.push_back(zeroOf(at->getElementType())); return Val::agg(r); }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < vt->getNumElements(); ++i) r.push_back(zeroOf(vt->getElementType())); return Val::agg(r); }
    return Val((u64)0);
}

// ------------------------------------------------------------------ constants
static Val evalConst(const Constant* c);
static Val evalConstExpr(const ConstantExpr* ce) {
    switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto* g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
            return Val(evalConst(ce->getOperand(0)).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
        case Instruction::Sub: return Val(evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c);
        case Instruction::Add: return Val(evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c);
        case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); return Val(v.c & (u64)maskw(widthOf(ce->getType()))); }
        case Instruction::ICmp: {
            u64 a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
            switch (ce->getPredicate()) {
                case CmpInst::ICMP_EQ: return Val((u64)(a == b)); case CmpInst::ICMP_NE: return Val((u64)(a != b));
                case CmpInst::ICMP_ULT: return Val((u64)(a < b)); case CmpInst::ICMP_UGT: return Val((u64)(a > b));
                default: throw Unsupported{"const icmp"};
            }
        }
        default: throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
    }
}
static Val evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
        if (ci->getBitWidth() > 128) throw Unsupported{"wide int"};
        u128 v = ci->getValue().getRawData()[0];
        if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
        Val r; r.e = X.cst(v, ci->getBitWidth()); return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() <= 64) return Val(b.getZExtValue());
        Val r; r.e = X.cst(0, b.getBitWidth()); return r;
    }
    if (isa<ConstantPointerNull>(c)) return Val((u64)0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(gv);
        if (it == gaddr.end()) throw Unsupported{"unallocated global " + gv->getName().str()};
        return Val(it->second);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) return evalConstExpr(ce);
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        std::vector<Val> r;
        for (unsigned i = 0; i < c->getNumOperands(); ++i) r.push_back(evalConst(cast<Constant>(c->getOperand(i))));
        return Val::agg(r);
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> r;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) r.push_back(evalConst(cd->getElementAsConstant(i)));
        return Val::agg(r);
    }
    throw Unsupported{"constant kind"};
}
static void initGlobal(Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset(o->data + off, 0, DL->getTypeStoreSize(t)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        memcpy(o->data + off, raw.data(), raw.size());
        return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) initGlobal(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i) initGlobal(o, off + i * es, cast<Constant>(c->getOperand(i)));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); ++i) initGlobal(o, off + i * es, cast<Constant>(c->getOperand(i)));
        return;
    }
    Val v = evalConst(c);
    u64 n = DL->getTypeStoreSize(t);
    if (v.e) { u128 x = v.e->c; memcpy(o->data + off, &x, std::min<u64>(n, 16)); }
    else { u64 x = v.c; memset(o->data + off, 0, n); memcpy(o->data + off, &x, n > 8 ? 8 : n); }
}

// ------------------------------------------------------------------ preparation
using Builtin = std::function<void(State&, KInstr&, std::vector<Val>&, Val&)>;
static std::vector<Builtin> builtins;
static std::unordered_map<std::string, int> builtinIdx;
static void reg(std::string n, Builtin b) { builtinIdx[n] = builtins.size(); builtins.push_back(std::move(b)); }

static int constRef(const Constant* c) {
    auto it = constIdx.find(c);
    if (it != constIdx.end()) return ~it->second;
    int i = consts.size();
    consts.push_back(evalConst(c));
    constIdx[c] = i;
    return ~i;
}
static KFunction* kf(Function* F) {
    auto it = kfuncs.find(F);
    if (it != kfuncs.end()) return it->second;
    auto* k = new KFunction;
    k->F = F; k->name = F->getName().str();
    kfuncs[F] = k;
    return k;
}
static void prepare(KFunction* k) {
    if (k->prepared) return;
    k->prepared = true;
    Function* F = k->F;
    std::unordered_map<const Value*, int> regs;
    for (auto& a : F->args()) regs[&a] = k->nregs++;
    std::unordered_map<const BasicBlock*, int> bi;
    for (auto& b : *F) {
        bi[&b] = k->blocks.size();
        k->blocks.push_back({0, 0, &b});
        for (auto& i : b) if (!i.getType()->isVoidTy()) regs[&i] = k->nregs++;
    }
    auto ref = [&](Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) return constRef(c);
        if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return INT32_MIN;
        auto it = regs.find(v);
        if (it == regs.end()) throw Unsupported{"operand"};
        return it->second;
    };
    int b = 0;
    for (auto& bb : *F) {
        KBlock& kb = k->blocks[b];
        kb.first = k->ins.size();
        bool phi = true;
        for (auto& i : bb) {
            if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                if (isa<DbgInfoIntrinsic>(ii) || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl || ii->getIntrinsicID() == Intrinsic::donothing) continue;
            }
            if (phi && !isa<PHINode>(i)) { phi = false; kb.firstNonPhi = k->ins.size(); }
            KInstr ki;
            ki.I = &i; ki.op = i.getOpcode();
            if (!i.getType()->isVoidTy()) { ki.dst = regs[&i]; ki.width = widthOf(i.getType()); }
            if (i.getNumOperands()) ki.ow = widthOf(i.getOperand(0)->getType());
            if (auto* p = dyn_cast<PHINode>(&i)) {
                for (unsigned n = 0; n < p->getNumIncomingValues(); ++n) { ki.ops.push_back(ref(p->getIncomingValue(n))); ki.succ.push_back(bi[p->getIncomingBlock(n)]); }
            } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                for (auto& a : cb->args()) ki.ops.push_back(ref(a.get()));
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                while (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto* fn = dyn_cast<Function>(cv)) {
                    ki.callee = fn;
                    auto it = builtinIdx.find(fn->getName().str());
                    if (fn->isIntrinsic()) ki.builtin = -2;
                    else if (it != builtinIdx.end() ) ki.builtin = it->second;
                    else if (!fn->isDeclaration()) ki.kcallee = kf(fn);
                } else if (isa<InlineAsm>(cv)) ki.builtin = -3;
                else ki.ops.push_back(ref(cb->getCalledOperand()));
                if (auto* inv = dyn_cast<InvokeInst>(cb)) { ki.succ.push_back(bi[inv->getNormalDest()]); ki.succ.push_back(bi[inv->getUnwindDest()]); }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                ki.ops.push_back(ref(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) {
                        ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) ki.gepOff += ci->getSExtValue() * (i64)sz;
                        else { ki.gepIdx.emplace_back(ref(idx), sz); ki.gepW.push_back(widthOf(idx->getType())); if (!widthOf(idx->getType())) throw Unsupported{"vector gep"}; }
                    }
                }
            } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                if (br->isConditional()) ki.ops.push_back(ref(br->getCondition()));
                for (unsigned n = 0; n < br->getNumSuccessors(); ++n) ki.succ.push_back(bi[br->getSuccessor(n)]);
            } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                ki.ops.push_back(ref(sw->getCondition()));
                ki.succ.push_back(bi[sw->getDefaultDest()]);
                for (auto& c : sw->cases()) { ki.succ.push_back(bi[c.getCaseSuccessor()]); ki.gepIdx.emplace_back(0, c.getCaseValue()->getZExtValue()); }
            } else if (isa<LandingPadInst>(i)) {
            } else {
                for (auto& o : i.operands()) ki.ops.push_back(ref(o.get()));
            }
            if (auto* l = dyn_cast<LoadInst>(&i)) ki.memTy = l->getType();
            if (auto* st = dyn_cast<StoreInst>(&i)) ki.memTy = st->getValueOperand()->getType();
            if (auto* a = dyn_cast<AllocaInst>(&i)) ki.memTy = a->getAllocatedType();
            if (ki.memTy) ki.memSize = isa<AllocaInst>(i) ? DL->getTypeAllocSize(ki.memTy) : DL->getTypeStoreSize(ki.memTy);
            k->ins.push_back(std::move(ki));
        }
        if (phi) kb.firstNonPhi = k->ins.size();
        ++b;
    }
}

// ------------------------------------------------------------------ execution
static inline Val const& get(Frame& f, int r) { return r >= 0 ? f.r[r] : consts[~r]; }

static void gotoBlock(State& s, int b) {
    Frame& f = topW(s);
    KFunction* k = f.f;
    f.prevBlock = f.curBlock; f.curBlock = b;
    KBlock& kb = k->blocks[b];
    int np = kb.firstNonPhi - kb.first;
    if (np > 0) {
        std::vector<Val> tmp; tmp.reserve(np);
        for (int i = kb.first; i < kb.firstNonPhi; ++i) {
            KInstr& p = k->ins[i];
            size_t n = 0;
            for (; n < p.succ.size(); ++n) if (p.succ[n] == f.prevBlock) break;
            if (n == p.succ.size()) throw Unsupported{"phi edge"};
            tmp.push_back(get(f, p.ops[n]));
        }
        for (int i = 0; i < np; ++i) f.r[k->ins[kb.first + i].dst] = std::move(tmp[i]);
    }
    f.pc = kb.firstNonPhi;
}
static void pushFrame(State& s, KFunction* k, std::vector<Val>& args) {
    if (s.stack.size() > 3000) fail(s, "stack", "call depth above 3000 (unbounded recursion)");
    prepare(k);
    ++k->entered;
    auto f = std::make_shared<Frame>();
    f->f = k;
    f->r.resize(k->nregs);
    size_t na = k->F->arg_size();
    if (args.size() < na) throw Unsupported{"argument count"};
    for (size_t i = 0; i < na; ++i) {
        f->r[i] = args[i];
        if (k->F->getArg(i)->hasByValAttr()) {
            Type* t = k->F->getArg(i)->getParamByValType();
            u64 sz = DL->getTypeAllocSize(t);
            u64 a = newObj(s, sz, OStack);
            Loc l = resolve(s, args[i], sz, false);
            if (l.soff) throw Unsupported{"byval symbolic"};
            Obj* src = s.mem.get(l.id);
            Obj* dst = s.mem.getW(a >> 32);
            for (u64 b = 0; b < sz; ++b) dst->setByte(b, src->byte(l.off + b));
            f->allocas.push_back(a >> 32);
            f->r[i] = Val(a);
        }
    }
    for (size_t i = na; i < args.size(); ++i) f->varargs.push_back(args[i]);
    f->pc = k->blocks[0].first;
    s.stack.push_back(std::move(f));
    if (optTraceCalls) { fprintf(stderr, "%*s> %s\n", (int)s.stack.size(), "", shortName(dem(k->name)).c_str()); }
}
static void popFrame(State& s) {
    Frame& f = *s.stack.back();
    for (u32 id : f.allocas) s.mem.set(id, nullptr);
    s.stack.pop_back();
}
// finish the call instruction at the top frame with value v
static void finishCall(State& s, KInstr& k, Val v) {
    Frame& f = topW(s);
    if (k.dst >= 0) f.r[k.dst] = std::move(v);
    if (k.op == Instruction::Invoke) gotoBlock(s, k.succ[0]);
    else ++f.pc;
}
struct TI { u64 addr; };
static bool tiBase(State& s, u64 ti, u64 want, u64 obj, i64& off) {
    if (ti == want) return true;
    u64 vt = rd64(s, ti);
    if (vt == tiSI + 16) { return tiBase(s, rd64(s, ti + 16), want, obj, off); }
    if (vt == tiVMI + 16) {
        u32 n = rd32(s, ti + 20);
        for (u32 i = 0; i < n; ++i) {
            u64 b = rd64(s, ti + 24 + 16 * i);
            i64 fl = (i64)rd64(s, ti + 32 + 16 * i);
            i64 o = fl >> 8;
            if (fl & 1) { if (!obj) continue; o = (i64)rd64(s, rd64(s, obj) + o); }
            i64 sub = off + o;
            i64 t = sub;
            if (tiBase(s, b, want, obj ? obj + o : 0, t)) { off = t; return true; }
        }
    }
    return false;
}
// unwind from the current instruction of the top frame; `fromCall` false: the
// top frame itself is being left (resume)
static void unwind(State& s, bool atCall) {
    Exc& ex_ = s.excs[s.curExc];
    for (;;) {
        if (s.stack.empty()) {
            throw PathEnd{};
        }
        if (atCall) {
            Frame& f = *s.stack.back();
            KInstr& k = f.f->ins[f.pc];
            if (k.op == Instruction::Invoke) {
                BasicBlock* bb = f.f->blocks[k.succ[1]].bb;
                auto* lp = bb->getLandingPadInst();
                int sel = 0; bool enter = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                    if (lp->isCatch(i)) {
                        u64 ti = evalConst(lp->getClause(i)).c;
                        if (ti == 0) { sel = 0x7fffffff; enter = true; ex_.adjusted = ex_.obj; break; }
                        i64 off = 0;
                        bool isPtr = rd64(s, ex_.ti) == tiPtr + 16;
                        if (tiBase(s, ex_.ti, ti, isPtr ? 0 : ex_.obj, off)) {
                            sel = (int)(ti >> 32); enter = true; ex_.adjusted = ex_.obj + off;
                            if (isPtr) ex_.adjusted = rd64(s, ex_.obj);
                            break;
                        }
                    } else { sel = -1; enter = true; break; }
                }
                if (enter) {
                    s.curSel = sel;
                    gotoBlock(s, k.succ[1]);
                    return;
                }
            }
        }
        if (s.stack.size() == 1) { // uncaught
            std::string tn = "?";
            for (auto& g : gaddr) if (g.second == ex_.ti) tn = dem(g.first->getName().str());
            fail(s, "exception", "uncaught exception " + tn);
        }
        popFrame(s);
        atCall = true;
    }
}

static Val binop(State& s, KInstr& k, unsigned op, Val const& a, Val const& b, unsigned w);
static Val castop(State& s, unsigned op, Val const& a, Type* from, Type* to);

static Val fbin(EK k, Val const& a, Val const& b, unsigned w) {
    if (a.conc() && b.conc()) return Val((u64)ExprCtx::applyC(k, w, w, 0, a.c, b.c, 0));
    return Val(X.bin(k, ex(a, w), ex(b, w)));
}
static Val fun1(EK k, Val const& a, unsigned w) {
    if (a.conc()) return Val((u64)ExprCtx::applyC(k, w, w, 0, a.c, 0, 0));
    return Val(X.un(k, w, a.e));
}
static Val binop(State& s, KInstr& k, unsigned op, Val const& a, Val const& b, unsigned w) {
    if (a.g) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.g->v.size(); ++i) r.push_back(binop(s, k, op, a.g->v[i], b.g->v[i], w));
        return Val::agg(std::move(r));
    }
    switch (op) {
        case Instruction::FAdd: return fbin(EFAdd, a, b, w);
        case Instruction::FSub: return fbin(EFSub, a, b, w);
        case Instruction::FMul: return fbin(EFMul, a, b, w);
        case Instruction::FDiv: return fbin(EFDiv, a, b, w);
        case Instruction::FRem: {
            if (!a.conc() || !b.conc()) throw Unsupported{"symbolic frem"};
            if (w == 64) return Val((u64)ExprCtx::fromD(std::fmod(ExprCtx::asD(a.c), ExprCtx::asD(b.c))));
            return Val((u64)ExprCtx::fromF(std::fmod(ExprCtx::asF(a.c), ExprCtx::asF(b.c))));
        }
        default: break;
    }
    EK ek;
    switch (op) {
        case Instruction::Add: ek = EAdd; break; case Instruction::Sub: ek = ESub; break;
        case Instruction::Mul: ek = EMul; break; case Instruction::UDiv: ek = EUDiv; break;
        case Instruction::SDiv: ek = ESDiv; break; case Instruction::URem: ek = EURem; break;
        case Instruction::SRem: ek = ESRem; break; case Instruction::And: ek = EAnd; break;
        case Instruction::Or: ek = EOr; break; case Instruction::Xor: ek = EXor; break;
        case Instruction::Shl: ek = EShl; break; case Instruction::LShr: ek = ELShr; break;
        case Instruction::AShr: ek = EAShr; break;
        default: throw Unsupported{"binop"};
    }
    if (ek >= EUDiv && ek <= ESRem) { // division by zero is reported
        Expr* z = X.eq(ex(b, w), X.cst(0, w));
        if (z->kind == EConst) { if (z->c) fail(s, "arith", "division by zero"); }
        else {
            ModelP nm;
            if (query(s, z, nm) == 1) { report(s, *nm, "arith", "division by zero"); assume(s, X.bnot(z)); }
        }
    }
    if (a.conc() && b.conc() && w <= 64) return Val((u64)ExprCtx::applyC(ek, w, w, 0, a.c, b.c, 0));
    return Val(X.bin(ek, ex(a, w), ex(b, w)));
}
static Val icmp(CmpInst::Predicate p, Val const& a, Val const& b, unsigned w) {
    if (a.g) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.g->v.size(); ++i) r.push_back(icmp(p, a.g->v[i], b.g->v[i], w));
        return Val::agg(std::move(r));
    }
    if (a.conc() && b.conc()) {
        u64 x = a.c, y = b.c;
        i64 sx = (i64)sextw(x, w), sy = (i64)sextw(y, w);
        switch (p) {
            case CmpInst::ICMP_EQ: return Val((u64)(x == y)); case CmpInst::ICMP_NE: return Val((u64)(x != y));
            case CmpInst::ICMP_ULT: return Val((u64)(x < y)); case CmpInst::ICMP_ULE: return Val((u64)(x <= y));
            case CmpInst::ICMP_UGT: return Val((u64)(x > y)); case CmpInst::ICMP_UGE: return Val((u64)(x >= y));
            case CmpInst::ICMP_SLT: return Val((u64)(sx < sy)); case CmpInst::ICMP_SLE: return Val((u64)(sx <= sy));
            case CmpInst::ICMP_SGT: return Val((u64)(sx > sy)); case CmpInst::ICMP_SGE: return Val((u64)(sx >= sy));
            default: break;
        }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return Val(X.eq(x, y)); case CmpInst::ICMP_NE: return Val(X.bnot(X.eq(x, y)));
        case CmpInst::ICMP_ULT: return Val(X.bin(EUlt, x, y)); case CmpInst::ICMP_ULE: return Val(X.bin(EUle, x, y));
        case CmpInst::ICMP_UGT: return Val(X.bin(EUlt, y, x)); case CmpInst::ICMP_UGE: return Val(X.bin(EUle, y, x));
        case CmpInst::ICMP_SLT: return Val(X.bin(ESlt, x, y)); case CmpInst::ICMP_SLE: return Val(X.bin(ESle, x, y));
        case CmpInst::ICMP_SGT: return Val(X.bin(ESlt, y, x)); case CmpInst::ICMP_SGE: return Val(X.bin(ESle, y, x));
        default: throw Unsupported{"icmp"};
    }
}
static Val fcmp(CmpInst::Predicate p, Val const& a, Val const& b, unsigned w) {
    if (a.g) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.g->v.size(); ++i) r.push_back(fcmp(p, a.g->v[i], b.g->v[i], w));
        return Val::agg(std::move(r));
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    auto U = [&] { return X.bin(EFUno, x, y); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return Val((u64)0); case CmpInst::FCMP_TRUE: return Val((u64)1);
        case CmpInst::FCMP_OEQ: return Val(X.bin(EFOeq, x, y));
        case CmpInst::FCMP_OLT: return Val(X.bin(EFOlt, x, y)); case CmpInst::FCMP_OLE: return Val(X.bin(EFOle, x, y));
        case CmpInst::FCMP_OGT: return Val(X.bin(EFOlt, y, x)); case CmpInst::FCMP_OGE: return Val(X.bin(EFOle, y, x));
        case CmpInst::FCMP_ONE: return Val(X.band(X.bnot(X.bin(EFOeq, x, y)), X.bnot(U())));
        case CmpInst::FCMP_UNO: return Val(U()); case CmpInst::FCMP_ORD: return Val(X.bnot(U()));
        case CmpInst::FCMP_UEQ: return Val(X.bor(X.bin(EFOeq, x, y), U()));
        case CmpInst::FCMP_UNE: return Val(X.bnot(X.bin(EFOeq, x, y)));
        case CmpInst::FCMP_ULT: return Val(X.bnot(X.bin(EFOle, y, x))); case CmpInst::FCMP_ULE: return Val(X.bnot(X.bin(EFOlt, y, x)));
        case CmpInst::FCMP_UGT: return Val(X.bnot(X.bin(EFOle, x, y))); case CmpInst::FCMP_UGE: return Val(X.bnot(X.bin(EFOlt, x, y)));
        default: throw Unsupported{"fcmp"};
    }
}
static Expr* aggBits(Val const& v, Type* t) { // value -> single bit vector
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = widthOf(vt->getElementType());
        Expr* r = nullptr;
        for (auto& x : v.g->v) r = r ? X.concat(ex(x, ew), r) : ex(x, ew);
        return r;
    }
    return ex(v, widthOf(t));
}
static Val bitsAgg(Expr* e, Type* t) {
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = widthOf(vt->getElementType());
        std::vector<Val> r;
        for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(Val(X.extract(e, i * ew, ew)));
        return Val::agg(std::move(r));
    }
    return Val(e);
}
static Val castop(State& s, unsigned op, Val const& a, Type* from, Type* to) {
    if (op == Instruction::BitCast) {
        if (!from->isVectorTy() && !to->isVectorTy()) return a;
        return bitsAgg(aggBits(a, from), to);
    }
    if (a.g) {
        std::vector<Val> r;
        Type* fe = cast<FixedVectorType>(from)->getElementType(); Type* te = cast<FixedVectorType>(to)->getElementType();
        for (auto& x : a.g->v) r.push_back(castop(s, op, x, fe, te));
        return Val::agg(std::move(r));
    }
    unsigned fw = widthOf(from), tw = widthOf(to);
    switch (op) {
        case Instruction::Trunc:
            if (a.conc()) return Val(a.c & (u64)maskw(tw));
            return Val(X.extract(a.e, 0, tw));
        case Instruction::ZExt:
            if (a.conc() && tw <= 64) return a;
            if (optForkSelect && fw == 1 && (tw == 32 || tw == 64)) return Val((u64)branch(s, a.e));
            return Val(X.zext(ex(a, fw), tw));
        case Instruction::SExt:
            if (a.conc() && tw <= 64) return Val((u64)((u128)sextw(a.c, fw) & maskw(tw)));
            return Val(X.sext(ex(a, fw), tw));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            if (fw == tw) return a;
            if (fw > tw) return castop(s, Instruction::Trunc, a, from, to);
            return castop(s, Instruction::ZExt, a, from, to);
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
            EK k = op == Instruction::SIToFP ? ESIToFP : op == Instruction::UIToFP ? EUIToFP : op == Instruction::FPToSI ? EFPToSI : op == Instruction::FPToUI ? EFPToUI : op == Instruction::FPExt ? EFPExt : EFPTrunc;
            if (fw > 64 || tw > 64) {
                if (op == Instruction::FPExt || op == Instruction::FPTrunc || true) throw Unsupported{"x87 arithmetic"};
            }
            return Val(X.un(k, tw, ex(a, fw)));
        }
        default: throw Unsupported{"cast"};
    }
}
static Val selectVal(Expr* c, Val const& a, Val const& b, Type* t) {
    if (a.g) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.g->v.size(); ++i) {
            Type* et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
            r.push_back(selectVal(c, a.g->v[i], b.g->v[i], et));
        }
        return Val::agg(std::move(r));
    }
    unsigned w = widthOf(t);
    return Val(X.ite(c, ex(a, w), ex(b, w)));
}

static void copyMem(State& s, Val const& dst, Val const& src, u64 n) {
    if (n == 0) return;
    Val d = dst, sr = src;
    if (d.e) d = Val(concretize(s, d, 64));
    if (sr.e) sr = Val(concretize(s, sr, 64));
    Loc ls = resolve(s, sr, n, false);
    Loc ld = resolve(s, d, n, true);
    Obj* o = s.mem.get(ls.id);
    std::vector<u8> buf(o->data + ls.off, o->data + ls.off + n);
    std::vector<Expr*> sb;
    if (hasSym(o, ls.off, n)) sb.assign(o->sym + ls.off, o->sym + ls.off + n);
    Obj* w = s.mem.getW(ld.id);
    memcpy(w->data + ld.off, buf.data(), n);
    if (!sb.empty()) { w->needSym(); memcpy(w->sym + ld.off, sb.data(), n * sizeof(Expr*)); }
    else if (w->sym) memset(w->sym + ld.off, 0, n * sizeof(Expr*));
}
static void setMem(State& s, Val const& dst, Val const& byte, u64 n) {
    if (n == 0) return;
    Val d = dst;
    if (d.e) d = Val(concretize(s, d, 64));
    Loc ld = resolve(s, d, n, true);
    Obj* w = s.mem.getW(ld.id);
    if (!byte.e) { memset(w->data + ld.off, (u8)byte.c, n); if (w->sym) memset(w->sym + ld.off, 0, n * sizeof(Expr*)); }
    else for (u64 i = 0; i < n; ++i) w->setByte(ld.off + i, X.extract(byte.e, 0, 8));
}
static Val cmpMem(State& s, Val const& pa, Val const& pb, u64 n) {
    if (n == 0) return Val((u64)0);
    Val a = pa, b = pb;
    if (a.e) a = Val(concretize(s, a, 64));
    if (b.e) b = Val(concretize(s, b, 64));
    Loc la = resolve(s, a, n, false), lb = resolve(s, b, n, false);
    Obj *oa = s.mem.get(la.id), *ob = s.mem.get(lb.id);
    Expr* r = X.cst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr *x = oa->byte(la.off + i), *y = ob->byte(lb.off + i);
        r = X.ite(X.eq(x, y), r, X.ite(X.bin(EUlt, x, y), X.cst((u64)-1, 32), X.cst(1, 32)));
    }
    return Val(r);
}
static std::string cstr(State& s, Val const& p) {
    std::string r;
    u64 a = p.e ? concretize(s, p, 64) : p.c;
    for (;;) {
        Val b = loadBytes(s, Val(a++), 1, 8);
        u64 c = concretize(s, b, 8);
        if (!c) return r;
        r += (char)c;
    }
}

static void freeObj(State& s, Val const& p, const char* what) {
    u64 a = p.e ? concretize(s, p, 64) : p.c;
    if (a == 0) return;
    Obj* o = s.mem.get(a >> 32);
    if (!o) fail(s, "memory", std::string(what) + ": double free or invalid pointer");
    if (o->kind != OHeap || (a & 0xffffffff)) fail(s, "memory", std::string(what) + ": pointer was not allocated on the heap");
    s.mem.set(a >> 32, nullptr);
}

static void intrinsic(State& s, KInstr& k, std::vector<Val>& a, Val& ret) {
    auto id = k.callee->getIntrinsicID();
    Type* t0 = k.callee->getReturnType();
    auto vecMap = [&](auto fn) {
        if (!a.empty() && a[0].g) {
            std::vector<Val> r;
            for (size_t i = 0; i < a[0].g->v.size(); ++i) r.push_back(fn(i));
            ret = Val::agg(std::move(r));
            return true;
        }
        return false;
    };
    unsigned w = k.width;
    if (auto* vt = dyn_cast<FixedVectorType>(t0)) w = widthOf(vt->getElementType());
    switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, a[0], a[1], concretize(s, a[2], 64)); break;
        case Intrinsic::memset: setMem(s, a[0], a[1], concretize(s, a[2], widthOf(k.I->getOperand(2)->getType()))); break;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch:
        case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: break;
        case Intrinsic::stacksave: ret = Val((u64)0); break;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: ret = a[0]; break;
        case Intrinsic::is_constant: ret = Val((u64)0); break;
        case Intrinsic::objectsize: ret = Val((u64)-1); break;
        case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "abort", "trap");
        case Intrinsic::eh_typeid_for: ret = Val((a[0].c >> 32) & 0x7fffffff); break;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            auto one = [&](Val const& x, Val const& y) {
                EK c = (id == Intrinsic::umax || id == Intrinsic::umin) ? EUlt : ESlt;
                Expr *p = ex(x, w), *q = ex(y, w);
                Expr* lt = X.bin(c, p, q);
                bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
                return Val(mn ? X.ite(lt, p, q) : X.ite(lt, q, p));
            };
            if (!vecMap([&](size_t i) { return one(a[0].g->v[i], a[1].g->v[i]); })) ret = one(a[0], a[1]);
            break;
        }
        case Intrinsic::abs: { Expr* x = ex(a[0], w); ret = Val(X.ite(X.bin(ESlt, x, X.cst(0, w)), X.bin(ESub, X.cst(0, w), x), x)); break; }
        case Intrinsic::ctpop: {
            Expr* x = ex(a[0], w); Expr* r = X.cst(0, w);
            if (a[0].conc()) { ret = Val((u64)std::popcount(a[0].c)); break; }
            for (unsigned i = 0; i < w; ++i) r = X.bin(EAdd, r, X.zext(X.extract(x, i, 1), w));
            ret = Val(r); break;
        }
        case Intrinsic::ctlz: { Expr* x = ex(a[0], w); Expr* r = X.cst(w, w); for (unsigned i = 0; i < w; ++i) r = X.ite(X.extract(x, i, 1), X.cst(w - 1 - i, w), r); ret = Val(r); break; }
        case Intrinsic::cttz: { Expr* x = ex(a[0], w); Expr* r = X.cst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(x, i, 1), X.cst(i, w), r); ret = Val(r); break; }
        case Intrinsic::bswap: { Expr* x = ex(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Expr* b = X.extract(x, i * 8, 8); r = r ? X.concat(r, b) : b; } ret = Val(r); break; }
        case Intrinsic::bitreverse: { Expr* x = ex(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w; ++i) { Expr* b = X.extract(x, i, 1); r = r ? X.concat(r, b) : b; } ret = Val(r); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 sh = concretize(s, a[2], w) % w;
            Expr* c = X.concat(ex(a[0], w), ex(a[1], w));
            if (id == Intrinsic::fshl) ret = Val(sh == 0 ? ex(a[0], w) : X.extract(c, w - sh, w));
            else ret = Val(X.extract(c, sh, w));
            break;
        }
        case Intrinsic::uadd_sat: { Expr *x = X.zext(ex(a[0], w), w + 1), *y = X.zext(ex(a[1], w), w + 1), *r = X.bin(EAdd, x, y); ret = Val(X.ite(X.extract(r, w, 1), X.cst(maskw(w), w), X.extract(r, 0, w))); break; }
        case Intrinsic::usub_sat: { Expr *x = ex(a[0], w), *y = ex(a[1], w); ret = Val(X.ite(X.bin(EUlt, x, y), X.cst(0, w), X.bin(ESub, x, y))); break; }
        case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
            Expr *x = X.sext(ex(a[0], w), w + 1), *y = X.sext(ex(a[1], w), w + 1), *r = X.bin(id == Intrinsic::sadd_sat ? EAdd : ESub, x, y);
            Expr *hi = X.cst(maskw(w - 1), w + 1), *lo = X.cst(~maskw(w - 1), w + 1);
            ret = Val(X.ite(X.bin(ESlt, hi, r), X.extract(hi, 0, w), X.ite(X.bin(ESlt, r, lo), X.extract(lo, 0, w), X.extract(r, 0, w)))); break;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned n = widthOf(cast<StructType>(t0)->getElementType(0));
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned m = mul ? 2 * n : n + 1;
            if (m > 128) throw Unsupported{"overflow intrinsic width"};
            Expr *x = sg ? X.sext(ex(a[0], n), m) : X.zext(ex(a[0], n), m), *y = sg ? X.sext(ex(a[1], n), m) : X.zext(ex(a[1], n), m);
            EK o = mul ? EMul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? EAdd : ESub;
            Expr* r = X.bin(o, x, y);
            Expr* lo = X.extract(r, 0, n);
            Expr* ov = X.bnot(X.eq(sg ? X.sext(lo, m) : X.zext(lo, m), r));
            ret = Val::agg({Val(lo), Val(ov)});
            break;
        }
        case Intrinsic::fabs: ret = Val(X.bin(EAnd, ex(a[0], w), X.cst(maskw(w - 1), w))); break;
        case Intrinsic::floor: ret = fun1(EFFloor, a[0], w); break;
        case Intrinsic::ceil: ret = fun1(EFCeil, a[0], w); break;
        case Intrinsic::trunc: ret = fun1(EFTruncI, a[0], w); break;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = fun1(EFRoundE, a[0], w); break;
        case Intrinsic::sqrt: ret = fun1(EFSqrt, a[0], w); break;
        case Intrinsic::copysign: ret = Val(X.concat(X.extract(ex(a[1], w), w - 1, 1), X.extract(ex(a[0], w), 0, w - 1))); break;
        case Intrinsic::fmuladd: case Intrinsic::fma: ret = fbin(EFAdd, fbin(EFMul, a[0], a[1], w), a[2], w); break;
        case Intrinsic::maxnum: case Intrinsic::minnum: {
            Expr *x = ex(a[0], w), *y = ex(a[1], w);
            Expr* lt = X.bin(EFOlt, x, y);
            Expr* r = id == Intrinsic::minnum ? X.ite(lt, x, y) : X.ite(lt, y, x);
            r = X.ite(X.bin(EFUno, x, x), y, X.ite(X.bin(EFUno, y, y), x, r));
            ret = Val(r); break;
        }
        case Intrinsic::round: {
            if (!a[0].conc()) throw Unsupported{"symbolic round"};
            ret = Val(w == 64 ? (u64)ExprCtx::fromD(std::round(ExprCtx::asD(a[0].c))) : (u64)ExprCtx::fromF(std::round(ExprCtx::asF(a[0].c))));
            break;
        }
        case Intrinsic::log10: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp: case Intrinsic::pow: case Intrinsic::sin: case Intrinsic::cos: {
            if (!a[0].conc()) throw Unsupported{"symbolic libm"};
            double x = ExprCtx::asD(a[0].c), r = 0;
            if (w != 64) throw Unsupported{"float libm"};
            r = id == Intrinsic::log10 ? std::log10(x) : id == Intrinsic::log ? std::log(x) : id == Intrinsic::log2 ? std::log2(x) : id == Intrinsic::exp ? std::exp(x) : id == Intrinsic::sin ? std::sin(x) : id == Intrinsic::cos ? std::cos(x) : std::pow(x, ExprCtx::asD(a[1].c));
            ret = Val((u64)ExprCtx::fromD(r));
            break;
        }
        case Intrinsic::load_relative: throw Unsupported{"relative lookup table"};
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
            EK o = id == Intrinsic::vector_reduce_add ? EAdd : id == Intrinsic::vector_reduce_or ? EOr : id == Intrinsic::vector_reduce_and ? EAnd : id == Intrinsic::vector_reduce_xor ? EXor : EMul;
            Expr* r = nullptr;
            for (auto& v : a[0].g->v) r = r ? X.bin(o, r, ex(v, w)) : ex(v, w);
            ret = Val(r); break;
        }
        default: throw Unsupported{"intrinsic " + k.callee->getName().str()};
    }
}
static void doCall(State& s, KInstr& k) {
    Frame& f = *s.stack.back();
    std::vector<Val> args;
    size_t n = k.ops.size();
    args.reserve(n);
    for (size_t i = 0; i < n; ++i) args.push_back(k.ops[i] == INT32_MIN ? Val((u64)0) : get(f, k.ops[i]));
    KFunction* target = k.kcallee;
    int bi = k.builtin;
    if (!k.callee && bi != -3) { // indirect
        Val fp = args.back(); args.pop_back();
        u64 a = concretize(s, fp, 64);
        if (a == 0) fail(s, "memory", "call through null function pointer");
        auto it = fnByAddr.find(a);
        if (it == fnByAddr.end()) fail(s, "memory", "call through invalid function pointer");
        auto bt = builtinIdx.find(it->second->getName().str());
        if (bt != builtinIdx.end()) bi = bt->second;
        else if (!it->second->isDeclaration()) target = kf(it->second);
        else throw Unsupported{"external function " + dem(it->second->getName().str())};
    }
    if (bi == -3) { finishCall(s, k, Val((u64)0)); return; }
    if (bi == -2) { Val r; intrinsic(s, k, args, r); finishCall(s, k, std::move(r)); return; }
    if (bi >= 0) {
        Val r;
        try { builtins[bi](s, k, args, r); } catch (Forked&) { return; }
        finishCall(s, k, std::move(r));
        return;
    }
    if (!target) throw Unsupported{"external function " + dem(k.callee->getName().str())};
    pushFrame(s, target, args);
}

static void step(State& s) {
    Frame& f0 = *s.stack.back();
    KFunction* fn = f0.f;
    KInstr& k = fn->ins[f0.pc];
    auto V = [&](int i) -> Val const& { return get(*s.stack.back(), k.ops[i]); };
    auto set = [&](Val v) { Frame& f = topW(s); f.r[k.dst] = std::move(v); ++f.pc; };
    switch (k.op) {
        case Instruction::Ret: {
            Val r;
            if (!k.ops.empty()) r = V(0);
            popFrame(s);
            if (s.stack.empty()) return;
            Frame& f = *s.stack.back();
            finishCall(s, f.f->ins[f.pc], std::move(r));
            return;
        }
        case Instruction::Br: {
            if (k.ops.empty()) { gotoBlock(s, k.succ[0]); return; }
            Val const& c = V(0);
            if (!c.e) { gotoBlock(s, c.c ? k.succ[0] : k.succ[1]); return; }
            bool v = branch(s, c.e);
            gotoBlock(s, v ? k.succ[0] : k.succ[1]);
            return;
        }
        case Instruction::Switch: {
            Val const c = V(0);
            if (!c.e) {
                for (size_t i = 0; i < k.gepIdx.size(); ++i) if (k.gepIdx[i].second == c.c) { gotoBlock(s, k.succ[i + 1]); return; }
                gotoBlock(s, k.succ[0]);
                return;
            }
            std::map<int, Expr*> conds;
            Expr* any = X.F;
            for (size_t i = 0; i < k.gepIdx.size(); ++i) {
                Expr* e = X.eq(c.e, X.cst(k.gepIdx[i].second, k.ow));
                any = X.bor(any, e);
                auto& d = conds[k.succ[i + 1]];
                d = d ? X.bor(d, e) : e;
            }
            Expr* def = X.bnot(any);
            auto& d = conds[k.succ[0]];
            d = d ? X.bor(d, def) : def;
            // pick the side of the current model, fork the rest
            int mine = -1;
            for (auto& [b, e] : conds) if (evalB(s, e)) { mine = b; break; }
            for (auto& [b, e] : conds) if (b != mine) {
                ModelP nm;
                if (query(s, e, nm) == 1) {
                    auto n = fork(s);
                    n->model = nm;
                    addPC(*n, e);
                    gotoBlock(*n, b);
                    work.push_back(std::move(n));
                }
            }
            addPC(s, conds[mine]);
            gotoBlock(s, mine);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, k); return;
        case Instruction::Load: set(loadTy(s, V(0), k.memTy)); return;
        case Instruction::Store: { storeTy(s, V(1), V(0), k.memTy); ++topW(s).pc; return; }
        case Instruction::GetElementPtr: {
            Val const& b = V(0);
            if (b.g) throw Unsupported{"vector gep"};
            u64 off = k.gepOff; Expr* so = nullptr;
            for (size_t i = 0; i < k.gepIdx.size(); ++i) {
                Val const& x = get(*s.stack.back(), k.gepIdx[i].first);
                if (x.g) throw Unsupported{"vector gep"};
                if (!x.e) off += (u64)sextw(x.c, k.gepW[i]) * k.gepIdx[i].second;
                else {
                    Expr* t = X.bin(EMul, X.sext(x.e, 64), X.cst(k.gepIdx[i].second, 64));
                    so = so ? X.bin(EAdd, so, t) : t;
                }
            }
            if (!so) { set(ptrAdd(b, off)); return; }
            Expr* base = ex(b, 64);
            set(Val(X.bin(EAdd, X.bin(EAdd, base, so), X.cst(off, 64))));
            return;
        }
        case Instruction::Alloca: {
            u64 n = k.memSize * concretize(s, V(0), k.ow);
            u64 a = newObj(s, n, OStack);
            Frame& f = topW(s);
            f.allocas.push_back(a >> 32);
            f.r[k.dst] = Val(a);
            ++f.pc;
            return;
        }
        case Instruction::ICmp: {
            unsigned w = k.ow;
            if (auto* vt = dyn_cast<FixedVectorType>(k.I->getOperand(0)->getType())) w = widthOf(vt->getElementType());
            set(icmp(cast<ICmpInst>(k.I)->getPredicate(), V(0), V(1), w)); return;
        }
        case Instruction::FCmp: {
            unsigned w = k.ow;
            if (auto* vt = dyn_cast<FixedVectorType>(k.I->getOperand(0)->getType())) w = widthOf(vt->getElementType());
            set(fcmp(cast<FCmpInst>(k.I)->getPredicate(), V(0), V(1), w)); return;
        }
        case Instruction::Select: {
            Val const& c = V(0);
            if (c.g) {
                std::vector<Val> r;
                Type* et = cast<FixedVectorType>(k.I->getType())->getElementType();
                for (size_t i = 0; i < c.g->v.size(); ++i) r.push_back(selectVal(ex(c.g->v[i], 1), V(1).g->v[i], V(2).g->v[i], et));
                set(Val::agg(std::move(r))); return;
            }
            if (!c.e) { set(c.c ? V(1) : V(2)); return; }
            // sizes and positions picked by a select stay concrete when asked to
            if (optForkSelect && (k.I->getType()->isPointerTy() || k.I->getType()->isIntegerTy(32) || k.I->getType()->isIntegerTy(64))) {
                bool v = branch(s, c.e);
                set(v ? V(1) : V(2));
                return;
            }
            set(selectVal(c.e, V(1), V(2), k.I->getType()));
            return;
        }
        case Instruction::ExtractValue: {
            Val v = V(0);
            for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { Val t = v.g->v[i]; v = t; }
            set(std::move(v)); return;
        }
        case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(k.I);
            std::function<Val(Val const&, ArrayRef<unsigned>)> ins = [&](Val const& a, ArrayRef<unsigned> ix) -> Val {
                std::vector<Val> v = a.g->v;
                v[ix[0]] = ix.size() == 1 ? V(1) : ins(v[ix[0]], ix.drop_front());
                return Val::agg(std::move(v));
            };
            set(ins(V(0), iv->getIndices())); return;
        }
        case Instruction::ExtractElement: { u64 i = concretize(s, V(1), 64); set(V(0).g->v.at(i)); return; }
        case Instruction::InsertElement: { u64 i = concretize(s, V(2), 64); std::vector<Val> v = V(0).g->v; v.at(i) = V(1); set(Val::agg(std::move(v))); return; }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(k.I);
            std::vector<Val> r;
            auto& a = V(0).g->v; auto& b = V(1).g->v;
            for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val((u64)0) : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
            set(Val::agg(std::move(r))); return;
        }
        case Instruction::FNeg: {
            auto one = [&](Val const& a, unsigned w) { return Val(X.bin(EXor, ex(a, w), X.cst((u128)1 << (w - 1), w))); };
            if (V(0).g) {
                std::vector<Val> r; unsigned w = widthOf(cast<FixedVectorType>(k.I->getType())->getElementType());
                for (auto& x : V(0).g->v) r.push_back(one(x, w));
                set(Val::agg(std::move(r)));
            } else set(one(V(0), k.width));
            return;
        }
        case Instruction::Freeze: set(V(0)); return;
        case Instruction::LandingPad: {
            Val r = Val::agg({Val(s.curExc), Val((u64)(u32)s.curSel)});
            set(std::move(r)); return;
        }
        case Instruction::Resume: {
            s.curExc = V(0).g->v[0].c;
            unwind(s, false);
            return;
        }
        case Instruction::Unreachable: fail(s, "unreachable", "unreachable code reached (undefined behaviour)");
        case Instruction::Fence: ++topW(s).pc; return;
        case Instruction::AtomicRMW: {
            auto* rmw = cast<AtomicRMWInst>(k.I);
            Val old = loadTy(s, V(0), rmw->getType());
            Val nv; unsigned w = k.width;
            switch (rmw->getOperation()) {
                case AtomicRMWInst::Xchg: nv = V(1); break;
                case AtomicRMWInst::Add: nv = binop(s, k, Instruction::Add, old, V(1), w); break;
                case AtomicRMWInst::Sub: nv = binop(s, k, Instruction::Sub, old, V(1), w); break;
                case AtomicRMWInst::And: nv = binop(s, k, Instruction::And, old, V(1), w); break;
                case AtomicRMWInst::Or: nv = binop(s, k, Instruction::Or, old, V(1), w); break;
                default: throw Unsupported{"atomicrmw"};
            }
            storeTy(s, V(0), nv, rmw->getType());
            set(old); return;
        }
        case Instruction::AtomicCmpXchg: {
            Type* t = k.I->getOperand(1)->getType(); unsigned w = widthOf(t);
            Val old = loadTy(s, V(0), t);
            Expr* e = X.eq(ex(old, w), ex(V(1), w));
            bool c = branch(s, e);
            if (c) storeTy(s, V(0), V(2), t);
            set(Val::agg({old, Val((u64)c)})); return;
        }
        case Instruction::VAArg: throw Unsupported{"va_arg"};
        default: break;
    }
    if (k.I->isBinaryOp()) {
        unsigned w = k.width;
        if (auto* vt = dyn_cast<FixedVectorType>(k.I->getType())) w = widthOf(vt->getElementType());
        set(binop(s, k, k.op, V(0), V(1), w)); return;
    }
    if (k.I->isCast()) { set(castop(s, k.op, V(0), k.I->getOperand(0)->getType(), k.I->getType())); return; }
    throw Unsupported{std::string("instruction ") + k.I->getOpcodeName()};
}

// ------------------------------------------------------------------ builtins
static int labelId(std::string const& l) {
    auto it = labelIds.find(l);
    if (it != labelIds.end()) return it->second;
    int i = labels.size();
    labels.push_back(l); labelHits.push_back(0); labelIds[l] = i;
    return i;
}
static std::unordered_map<std::string, Expr*> varCache; // path independent naming: (index,name,width)
static Expr* inputVar(State& s, std::string const& name, unsigned w) {
    std::string key = std::to_string(s.inputs.size()) + ":" + name + ":" + std::to_string(w);
    auto it = varCache.find(key);
    Expr* e = it != varCache.end() ? it->second : (varCache[key] = X.var(name, w));
    s.inputs.push_back({name, e});
    return e;
}
static void registerBuiltins() {
    auto ignore0 = [](State&, KInstr&, std::vector<Val>&, Val& r) { r = Val((u64)0); };
    reg("symx_sym", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        unsigned w = concretize(s, a[1], 32);
        Expr* e = inputVar(s, cstr(s, a[0]), w);
        r = Val(X.zext(e, 64));
    });
    reg("symx_pick", [](State& s, KInstr& k, std::vector<Val>& a, Val& r) {
        u64 n = concretize(s, a[1], 64);
        if (n == 0) { ++statInfeasible; throw PathEnd{}; }
        std::string name = cstr(s, a[0]);
        Expr* v = inputVar(s, name, 16); // the choice is a symbolic variable; the solver admits each value
        if (n > 0xffff) throw Unsupported{"pick range"};
        addPC(s, X.bin(EUlt, v, X.cst(n, 16)));
        for (u64 i = 1; i < n; ++i) {
            Expr* c = X.eq(v, X.cst(i, 16));
            ModelP nm;
            if (query(s, c, nm) != 1) continue;
            auto st = fork(s);
            st->model = nm;
            addPC(*st, c);
            finishCall(*st, k, Val(i));
            work.push_back(std::move(st));
        }
        assume(s, X.eq(v, X.cst(0, 16)));
        r = Val((u64)0);
    });
    reg("symx_assume", [](State& s, KInstr&, std::vector<Val>& a, Val&) { assume(s, ex(a[0], 1)); });
    reg("symx_check", [](State& s, KInstr& k, std::vector<Val>& a, Val&) {
        ++statChecks; ++s.checks;
        std::string what = cstr(s, a[1]);
        checkNames.insert(what);
        Expr* c = ex(a[0], 1);
        if (c->kind == EConst) { if (!c->c) { report(s, *s.model, "check", what); throw PathEnd{}; } return; }
        if (!evalB(s, c)) { report(s, *s.model, "check", what); assume(s, c); return; }
        ModelP nm;
        ++statCheckQueries;
        int r = query(s, X.bnot(c), nm);
        if (r == 1) { report(s, *nm, "check", what); }
        addPC(s, c);
    });
    reg("symx_reach", [](State& s, KInstr&, std::vector<Val>& a, Val&) { s.reached.insert(labelId(cstr(s, a[0]))); });
    reg("symx_concretize", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { r = Val(concretize(s, a[0], 64)); });
    reg("symx_expect_throw", ignore0);
    reg("symx_trace", [](State& s, KInstr&, std::vector<Val>& a, Val&) { fprintf(stderr, "TRACE %s\n", cstr(s, a[0]).c_str()); });
    reg("symx_trace_int", [](State& s, KInstr&, std::vector<Val>& a, Val&) {
        fprintf(stderr, "TRACE %s = %s\n", cstr(s, a[0]).c_str(), a[1].e ? X.str(a[1].e).c_str() : std::to_string((i64)a[1].c).c_str()); });

    auto alloc = [](State& s, KInstr&, std::vector<Val>& a, Val& r) { r = Val(newObj(s, concretize(s, a[0], 64), OHeap)); };
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) reg(n, alloc);
    reg("calloc", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); u64 p = newObj(s, n, OHeap); memset(s.mem.getW(p >> 32)->data, 0, n); r = Val(p); });
    reg("aligned_alloc", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { r = Val(newObj(s, concretize(s, a[1], 64), OHeap)); });
    reg("realloc", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        u64 n = concretize(s, a[1], 64), old = concretize(s, a[0], 64);
        u64 p = newObj(s, n, OHeap);
        if (old) { Obj* o = s.mem.get(old >> 32); if (!o) fail(s, "memory", "realloc of freed memory"); copyMem(s, Val(p), Val(old), std::min<u64>(n, o->size)); s.mem.set(old >> 32, nullptr); }
        r = Val(p);
    });
    reg("__cxa_demangle", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        int   status = 0;
        char* out    = abi::__cxa_demangle(cstr(s, a[0]).c_str(), nullptr, nullptr, &status);
        if (concretize(s, a[3], 64)) storeBytes(s, a[3], Val((u64)(uint32_t)status), 4, 32);
        u64 p = 0;
        if (out) { u64 n = strlen(out) + 1; p = newObj(s, n, OHeap); memcpy(s.mem.getW(p >> 32)->data, out, n); free(out); }
        r = Val(p);
    });
    auto dealloc = [](State& s, KInstr&, std::vector<Val>& a, Val&) { freeObj(s, a[0], "free"); };
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, dealloc);
    auto mcpy = [](State& s, KInstr&, std::vector<Val>& a, Val& r) { copyMem(s, a[0], a[1], concretize(s, a[2], 64)); r = a[0]; };
    reg("memcpy", mcpy); reg("memmove", mcpy);
    reg("memset", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { setMem(s, a[0], a[1], concretize(s, a[2], 64)); r = a[0]; });
    auto mcmp = [](State& s, KInstr&, std::vector<Val>& a, Val& r) { r = cmpMem(s, a[0], a[1], concretize(s, a[2], 64)); };
    reg("memcmp", mcmp); reg("bcmp", mcmp);

    // exceptions
    reg("__cxa_allocate_exception", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { u64 p = newObj(s, concretize(s, a[0], 64), OHeap); s.excs[p] = Exc{p, 0, 0, p, 0, 0}; r = Val(p); });
    reg("__cxa_free_exception", [](State& s, KInstr&, std::vector<Val>& a, Val&) { s.excs.erase(a[0].c); s.mem.set(a[0].c >> 32, nullptr); });
    reg("__cxa_throw", [](State& s, KInstr&, std::vector<Val>& a, Val&) {
        Exc& e = s.excs[a[0].c];
        e.ti = a[1].c; e.dtor = a[2].c; e.refs = 1;
        s.curExc = a[0].c;
        if (optTraceCalls) { fprintf(stderr, "THROW at\n%s", where(s, 12).c_str()); }
        unwind(s, true);
        throw Forked{};
    });
    reg("__cxa_begin_catch", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        Exc& e = s.excs[a[0].c];
        ++e.handlers; s.caught.push_back(a[0].c);
        r = Val(e.adjusted);
    });
    reg("__cxa_get_exception_ptr", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { r = Val(s.excs[a[0].c].adjusted); });
    auto release = [](State& s, KInstr& k, u64 p) { // drops one reference; may call the destructor
        Exc& e = s.excs[p];
        if (--e.refs == 0) {
            u64 d = e.dtor;
            if (d) {
                auto it = fnByAddr.find(d);
                if (it != fnByAddr.end() && !it->second->isDeclaration()) {
                    std::vector<Val> args{Val(p)};
                    pushFrame(s, kf(it->second), args); // memory of the exception object stays allocated
                    throw Forked{};
                }
            }
        }
    };
    reg("__cxa_end_catch", [release](State& s, KInstr& k, std::vector<Val>&, Val&) {
        if (s.caught.empty()) return;
        u64 p = s.caught.back();
        Exc& e = s.excs[p];
        if (e.handlers < 0) { // being rethrown
            ++e.handlers;
            if (e.handlers == 0) s.caught.pop_back();
            return;
        }
        if (--e.handlers == 0) { s.caught.pop_back(); release(s, k, p); }
        else s.caught.pop_back();
    });
    reg("__cxa_rethrow", [](State& s, KInstr&, std::vector<Val>&, Val&) {
        if (s.caught.empty()) fail(s, "terminate", "rethrow without exception");
        u64 p = s.caught.back();
        s.excs[p].handlers = -s.excs[p].handlers;
        s.curExc = p;
        unwind(s, true);
        throw Forked{};
    });
    reg("_Unwind_Resume", [](State& s, KInstr&, std::vector<Val>& a, Val&) { s.curExc = a[0].c; unwind(s, false); throw Forked{}; });
    reg("__clang_call_terminate", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "terminate", "std::terminate: exception escaped a noexcept function"); });
    reg("_ZSt9terminatev", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "terminate", "std::terminate called"); });
    reg("abort", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "abort", "abort called"); });
    reg("exit", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "abort", "exit called"); });
    reg("_exit", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "abort", "_exit called"); });
    reg("__cxa_pure_virtual", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "abort", "pure virtual call"); });
    reg("__cxa_throw_bad_array_new_length", [](State& s, KInstr&, std::vector<Val>&, Val&) { fail(s, "abort", "bad array new length"); });
    reg("__assert_fail", [](State& s, KInstr&, std::vector<Val>& a, Val&) { fail(s, "abort", "assertion failed: " + cstr(s, a[0])); });
    reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State& s, KInstr&, std::vector<Val>& a, Val&) { fail(s, "abort", "libstdc++ assertion failed: " + cstr(s, a[3])); });
    reg("_ZSt18uncaught_exceptionv", ignore0);
    reg("_ZSt19uncaught_exceptionsv", [](State& s, KInstr&, std::vector<Val>&, Val& r) { r = Val((u64)0); });
    // exception_ptr: the stored pointer is the exception object
    reg("_ZSt17current_exceptionv", [](State& s, KInstr&, std::vector<Val>& a, Val&) {
        u64 p = s.caught.empty() ? 0 : s.caught.back();
        if (p) ++s.excs[p].refs;
        storeBytes(s, a[0], Val(p), 8, 64);
    });
    reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", [](State& s, KInstr&, std::vector<Val>& a, Val&) { u64 p = rd64(s, a[0].c); if (p) ++s.excs[p].refs; });
    reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", [release](State& s, KInstr& k, std::vector<Val>& a, Val&) { u64 p = rd64(s, a[0].c); storeBytes(s, a[0], Val((u64)0), 8, 64); if (p) release(s, k, p); });
    reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [](State& s, KInstr&, std::vector<Val>& a, Val&) {
        u64 p = rd64(s, a[0].c); if (!p) fail(s, "terminate", "rethrow of empty exception_ptr");
        ++s.excs[p].refs; s.curExc = p; unwind(s, true); throw Forked{};
    });
    reg("__dynamic_cast", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        u64 p = concretize(s, a[0], 64);
        u64 vp = rd64(s, p);
        i64 top = (i64)rd64(s, vp - 16);
        u64 ti = rd64(s, vp - 8);
        u64 whole = p + top;
        i64 off = 0;
        if (tiBase(s, ti, a[2].c, whole, off)) r = Val(whole + off);
        else r = Val((u64)0);
    });
    reg("__cxa_guard_acquire", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { Val v = loadBytes(s, a[0], 1, 8); r = Val((u64)(v.c ? 0 : 1)); });
    reg("__cxa_guard_release", [](State& s, KInstr&, std::vector<Val>& a, Val&) { storeBytes(s, a[0], Val((u64)1), 1, 8); });
    reg("__cxa_guard_abort", ignore0);
    for (auto n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
                   "fflush", "fputs", "fputc", "putchar", "puts", "fwrite", "printf", "fprintf", "vfprintf", "perror",
                   "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) reg(n, ignore0);
    reg("__errno_location", [](State& s, KInstr&, std::vector<Val>&, Val& r) { static const GlobalVariable* g = nullptr; (void)g; r = Val(newObj(s, 8, OHeap)); });
    auto libm1 = [](const char* n, double (*fn)(double)) {
        reg(n, [fn](State&, KInstr&, std::vector<Val>& a, Val& r) {
            if (!a[0].conc()) throw Unsupported{"symbolic libm call"};
            r = Val((u64)ExprCtx::fromD(fn(ExprCtx::asD(a[0].c))));
        });
    };
    libm1("log10", std::log10); libm1("log", std::log); libm1("log2", std::log2); libm1("exp", std::exp); libm1("sin", std::sin); libm1("cos", std::cos); libm1("round", std::round);
    libm1("acos", std::acos); libm1("atan", std::atan); libm1("tan", std::tan); libm1("cbrt", std::cbrt);
    reg("pow", [](State&, KInstr&, std::vector<Val>& a, Val& r) { if (!a[0].conc() || !a[1].conc()) throw Unsupported{"symbolic libm call"}; r = Val((u64)ExprCtx::fromD(std::pow(ExprCtx::asD(a[0].c), ExprCtx::asD(a[1].c)))); });
    reg("atan2", [](State&, KInstr&, std::vector<Val>& a, Val& r) { if (!a[0].conc() || !a[1].conc()) throw Unsupported{"symbolic libm call"}; r = Val((u64)ExprCtx::fromD(std::atan2(ExprCtx::asD(a[0].c), ExprCtx::asD(a[1].c)))); });
    reg("modf", [](State& s, KInstr&, std::vector<Val>& a, Val& r) { if (!a[0].conc()) throw Unsupported{"symbolic libm call"}; double ip; double fr = std::modf(ExprCtx::asD(a[0].c), &ip); storeBytes(s, a[1], Val((u64)ExprCtx::fromD(ip)), 8, 64); r = Val((u64)ExprCtx::fromD(fr)); });
    reg("fmod", [](State&, KInstr&, std::vector<Val>& a, Val& r) { if (!a[0].conc() || !a[1].conc()) throw Unsupported{"symbolic libm call"}; r = Val((u64)ExprCtx::fromD(std::fmod(ExprCtx::asD(a[0].c), ExprCtx::asD(a[1].c)))); });
    reg("strtod", [](State& s, KInstr&, std::vector<Val>& a, Val& r) {
        std::string t = cstr(s, a[0]); char* e; double d = strtod(t.c_str(), &e);
        if (a[1].c) storeBytes(s, a[1], Val(a[0].c + (e - t.c_str())), 8, 64);
        r = Val((u64)ExprCtx::fromD(d));
    });
    // snprintf for concrete arguments only
    auto snp = [](State& s, KInstr& k, std::vector<Val>& a, Val& r) {
        std::string fmt = cstr(s, a[2]);
        std::string out; size_t ai = 3;
        for (size_t i = 0; i < fmt.size(); ++i) {
            if (fmt[i] != '%') { out += fmt[i]; continue; }
            std::string sp = "%"; ++i;
            while (i < fmt.size() && !isalpha(fmt[i]) && fmt[i] != '%') {
                if (fmt[i] == '*') { sp += std::to_string((int)concretize(s, a.at(ai++), 32)); } else sp += fmt[i];
                ++i;
            }
            int l = 0;
            while (i < fmt.size() && (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z' || fmt[i] == 'j')) { if (fmt[i] != 'h') ++l; ++i; }
            char c = fmt[i]; char buf[512];
            if (c == '%') { out += '%'; continue; }
            if (c == 's') { out += cstr(s, a.at(ai++)); continue; }
            Val v = a.at(ai++);
            u64 x = v.e ? concretize(s, v, 64) : v.c;
            if (strchr("eEfFgG", c)) { snprintf(buf, 512, (sp + c).c_str(), ExprCtx::asD(x)); }
            else if (c == 'c') { buf[0] = (char)x; buf[1] = 0; }
            else { if (!l) { if (c == 'd' || c == 'i') x = (u64)(i64)(i32)x; else if (c != 'p') x = (u32)x; } snprintf(buf, 512, (sp + "l" + c).c_str(), x); }
            out += buf;
        }
        u64 n = concretize(s, a[1], 64);
        if (n) {
            u64 m = std::min<u64>(n - 1, out.size());
            u64 base = a[0].c;
            for (u64 i = 0; i < m; ++i) storeBytes(s, Val(base + i), Val((u64)(u8)out[i]), 1, 8);
            storeBytes(s, Val(base + m), Val((u64)0), 1, 8);
        }
        r = Val((u64)(u32)out.size());
    };
    reg("snprintf", snp);
}

// ------------------------------------------------------------------ driver
static void outStr(std::string& o, std::string const& s) {
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    o += '"';
}
static std::string inFile, entry, outFile;
static volatile sig_atomic_t stopFlag;

static void finishPath(State& s) {
    ++statPaths;
    statMaxSteps = std::max(statMaxSteps, s.steps);
    for (int l : s.reached) ++labelHits[l];
    if (samples.size() < 5) samples.push_back(inputsOf(s, *s.model));
}
static int realMain() {
    t0 = Clock::now();
    SMDiagnostic err;
    auto mod = parseIRFile(inFile, err, Ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    X.initZ3();
    registerBuiltins();
    auto init = std::make_unique<State>();
    State& s = *init;
    try {
        for (auto& F : *M) { u64 a = newObj(s, 1, OFunc); gaddr[&F] = a; fnByAddr[a] = &F; }
        for (auto& G : M->globals()) {
            u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
            if (!G.hasInitializer() && sz < 256) sz = 256;
            u64 a = newObj(s, sz, OGlobal);
            gaddr[&G] = a;
            if (!G.hasInitializer()) memset(s.mem.getW(a >> 32)->data, 0, sz);
            auto n = G.getName();
            if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiSI = a;
            if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiVMI = a;
            if (n == "_ZTVN10__cxxabiv117__class_type_infoE") tiClass = a;
            if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") tiPtr = a;
            if (n == "__libc_single_threaded") s.mem.getW(a >> 32)->data[0] = 1;
        }
        for (auto& G : M->globals()) if (G.hasInitializer()) {
            Obj* o = s.mem.getW(gaddr[&G] >> 32);
            initGlobal(o, 0, G.getInitializer());
            o->ro = G.isConstant();
        }
    } catch (Unsupported& u) { fprintf(stderr, "symx: unsupported in globals: %s\n", u.what.c_str()); return 3; }
    // entry sequence: constructors, then the harness
    std::vector<Function*> seq;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> v;
        for (auto& o : ca->operands()) {
            auto* cs = cast<ConstantStruct>(o);
            if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn);
        }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) seq.push_back(p.second);
    }
    auto* ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 3; }
    seq.push_back(ef);

    u64 tick = 0;
    auto runLoop = [&](std::unique_ptr<State> st, bool isInit) -> std::unique_ptr<State> {
        State& q = *st;
        try {
            while (!q.stack.empty()) {
                step(q);
                ++q.steps; ++statSteps;
                if (q.steps > optMaxSteps) {
                    report(q, *q.model, "steps", "step bound exceeded (possible non-termination)");
                    giveUp("step bound exceeded");
                    return nullptr;
                }
                if ((++tick & 0xfff) == 0) {
                    if (elapsed() > optTime || stopFlag) { giveUp("time limit"); return nullptr; }
                }
            }
            return st;
        } catch (PathEnd&) {
        } catch (Unsupported& u) {
            std::string w = q.stack.empty() ? "" : where(q, 4);
            giveUp("unsupported: " + u.what + " at " + w);
        }
        if (isInit) giveUp("static initialisation failed");
        return nullptr;
    };
    for (size_t i = 0; i + 1 < seq.size() && init; ++i) {
        std::vector<Val> none;
        pushFrame(*init, kf(seq[i]), none);
        init = runLoop(std::move(init), true);
        if (!work.empty()) { giveUp("static initialisation forked"); break; }
    }
    u64 initSteps = statSteps;
    if (init && violations.empty()) {
        init->steps = 0;
        for (auto& k : kfuncs) k.second->entered = 0;
        std::vector<Val> none;
        pushFrame(*init, kf(ef), none);
        work.push_back(std::move(init));
        while (!work.empty()) {
            if (elapsed() > optTime || stopFlag) { giveUp("time limit"); break; }
            if ((int)violations.size() >= optMaxViol) break;
            if (statPaths > optMaxPaths) { giveUp("path limit"); break; }
            auto st = std::move(work.back());
            work.pop_back();
            auto done = runLoop(std::move(st), false);
            if (done) finishPath(*done);
        }
    } else if (!init) giveUp("static initialisation failed");
    // ---- report
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    std::string o = "{\n";
    auto num = [&](const char* n, double v, bool last = false) { char b[96]; snprintf(b, 96, "  \"%s\": %.10g,\n", n, v); o += b; (void)last; };
    const char* verdict = !violations.empty() ? "violation" : inconclusive ? "inconclusive" : "holds";
    o += "  \"entry\": "; outStr(o, entry); o += ",\n  \"verdict\": \""; o += verdict; o += "\",\n";
    num("paths", statPaths); num("infeasible_paths", statInfeasible); num("forks", statForks); num("steps", statSteps); num("init_steps", initSteps);
    num("max_path_steps", statMaxSteps); num("queries", statQueries); num("sat", statSat); num("unsat", statUnsat); num("cache_hits", statCacheHit); num("model_hits", statModelHit);
    num("checks_evaluated", statChecks); num("check_queries", statCheckQueries); num("solver_s", statSolver); num("wall_s", elapsed()); num("maxrss_mb", ru.ru_maxrss / 1024.0);
    num("symbolic_variables", X.vars.size());
    o += "  \"checks\": ["; bool first = true; for (auto& c : checkNames) { if (!first) o += ", "; first = false; outStr(o, c); } o += "],\n";
    o += "  \"reached\": {"; for (size_t i = 0; i < labels.size(); ++i) { if (i) o += ", "; outStr(o, labels[i]); o += ": " + std::to_string(labelHits[i]); } o += "},\n";
    o += "  \"functions\": ["; first = true;
    { std::set<std::string> names; for (auto& k : kfuncs) if (k.second->entered) names.insert(shortName(dem(k.second->name)));
      for (auto& n : names) { if (!first) o += ",\n    "; first = false; outStr(o, n); } }
    o += "],\n  \"inconclusive\": ["; first = true; for (auto& w : inconclusiveWhy) { if (!first) o += ", "; first = false; outStr(o, w); } o += "],\n";
    auto dumpIn = [&](auto& v) { o += "["; bool f = true; for (auto& [n, x] : v) { if (!f) o += ", "; f = false; o += "["; outStr(o, n); o += ", " + std::to_string(x) + "]"; } o += "]"; };
    o += "  \"samples\": ["; first = true; for (auto& v : samples) { if (!first) o += ",\n    "; first = false; dumpIn(v); } o += "],\n";
    o += "  \"violations\": ["; first = true;
    for (auto& v : violations) {
        if (!first) o += ",\n"; first = false;
        o += "{\"kind\": "; outStr(o, v.kind); o += ", \"what\": "; outStr(o, v.what); o += ", \"where\": "; outStr(o, v.where); o += ", \"inputs\": "; dumpIn(v.inputs); o += "}";
    }
    o += "]\n}\n";
    if (outFile.empty()) fputs(o.c_str(), stdout);
    else { FILE* f = fopen(outFile.c_str(), "w"); if (!f) return 3; fputs(o.c_str(), f); fclose(f); }
    fflush(stdout);
    _exit(!violations.empty() ? 1 : inconclusive ? 2 : 0);
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v;
        else if (auto v = val("--out=")) outFile = v;
        else if (auto v = val("--max-steps=")) optMaxSteps = strtoull(v, 0, 10);
        else if (auto v = val("--time=")) optTime = atof(v);
        else if (auto v = val("--solver-ms=")) optSolverMs = atoi(v);
        else if (auto v = val("--max-viol=")) optMaxViol = atoi(v);
        else if (auto v = val("--dump=")) optDumpDir = v;
        else if (a == "--fork-select") optForkSelect = true;
        else if (a == "--trace") optTraceCalls = true;
        else if (a[0] != '-') inFile = a;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    signal(SIGTERM, [](int) { stopFlag = 1; });
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ul << 20);
    pthread_t th; static int rc;
    pthread_create(&th, &at, [](void*) -> void* { rc = realMain(); return nullptr; }, nullptr);
    pthread_join(th, nullptr);
    return rc;
}
