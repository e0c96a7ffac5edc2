// lirsym: symbolic execution of rustc's whole-program LLVM IR.
//
// Every path is executed from the entry point under a decision prefix; heap, stack and control are
// concrete per path, harness inputs are symbolic bit-vectors. Each branch (or address/index) that
// depends on an input is decided by Z3: all feasible sides are explored, so when the work queue runs
// empty the solver has covered every input value within the harness's bounds.
#include "expr.hpp"
#include <thread>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <condition_variable>
#include <deque>
#include <set>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <csignal>

typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

struct Val { u128 c = 0; Expr* e = nullptr; };

// When each of two threads last touched a byte (plain read, plain write, atomic read, atomic write), and from where.
struct Cell { u32 clk[2][4] = {{0}}; u32 fn[2][4] = {{0}}; };

struct Obj {
    u64 size = 0; u8 kind = 0;      // 1 global, 2 const global, 3 heap, 4 stack
    bool freed = false; u64 align = 1;
    std::vector<u8> d, st;          // bytes; st: 0 uninit, 1 concrete, 2 symbolic
    std::vector<std::pair<Expr*, u32>> sy;
    std::vector<Cell> sh;           // only while two threads run
    bool lazy = false;              // a stack slot not touched yet: most of a frame's never are
    void reset(u64 n, u8 k, u8 init) { if (!sh.empty()) sh.clear(); size = n; kind = k; freed = false; lazy = k == 4; sy.clear(); if (!lazy) { d.assign(n, 0); st.assign(n, init); } }
    void slim() { if (d.capacity() > 512) { std::vector<u8>().swap(d); std::vector<u8>().swap(st); } }
    void touch() { lazy = false; d.assign(size, 0); st.assign(size, 0); }
};

/// Objects by identity. A block of identities all of whose objects are gone shares one block of tombstones.
struct ObjTab {
    struct Block { Obj* o[64]; u32 live; };
    std::vector<Block*> b; size_t n = 0; Block dead; Obj *deadStack, *deadHeap;
    ObjTab() { deadStack = new Obj(); deadHeap = new Obj(); deadStack->freed = deadHeap->freed = true; deadStack->kind = 4; deadHeap->kind = 3; for (auto& x : dead.o) x = deadStack; dead.live = 0; }
    Obj*& operator[](size_t i) { return b[i >> 6]->o[i & 63]; }
    size_t size() const { return n; }
    bool gone(size_t i) { Obj* o = (*this)[i]; return o == deadStack || o == deadHeap; }
    bool blockGone(size_t i) { return b[i >> 6] == &dead; }
    void push_back(Obj* o) { if (!(n & 63) && b.size() == n >> 6) { b.push_back(new Block()); } Block* x = b[n >> 6]; x->o[n & 63] = o; x->live++; n++; }
    void bury(size_t i) { Block*& x = b[i >> 6]; x->o[i & 63] = x->o[i & 63]->kind == 4 ? deadStack : deadHeap; if (!--x->live && ((i >> 6) + 1) << 6 <= n) { delete x; x = &dead; } }
    void shrink(size_t k) { n = k; while (b.size() > (k + 63) >> 6) { if (b.back() != &dead) delete b.back(); b.pop_back(); } if (k & 63) b.back()->live = k & 63; }
};

struct Entry { u64 v = 0; u64 vh = 0; bool taken = true, implied = false; };    // one recorded decision
struct Work { std::vector<Entry> prefix; std::vector<u128> model; };
struct Violation { std::string entry, kind; u64 id = 0; std::string msg; std::vector<std::pair<unsigned, u128>> inputs; std::vector<std::string> stack; };
struct Sample { std::vector<std::pair<unsigned, u128>> inputs; std::vector<u64> outs; };
struct PathEnd { int why; };        // 0 done 1 infeasible 2 violation 3 inconclusive

enum { I_NONE = 0, I_SYM, I_ASSUME, I_ASSERT, I_REACH, I_OUT, I_LIVE, I_PICK, I_PARAM, I_PANIC, I_ALLOC, I_ALLOCZ, I_DEALLOC, I_REALLOC, I_NOP, I_ABORT,
       I_MEMCPY, I_MEMSET, I_CTPOP, I_CTTZ, I_CTLZ, I_MINMAX, I_OVF, I_SAT, I_FSH, I_BSWAP, I_BITREV, I_ABS, I_CMP3, I_EXPECT, I_TRAP, I_TLS, I_BCMP, I_STRLEN, I_FALSE, I_ASSUMEI, I_PAR, I_YIELD, I_SYSCALL };

struct Cfg { std::string entry; std::vector<u64> params; unsigned threads = 8; double time = 600; u64 maxInstr = 20000000; u64 maxPaths = ~0ull; unsigned samples = 64; unsigned maxViol = 8; u64 seed = 1; bool concrete = false; std::vector<u128> fixed; std::vector<std::pair<bool, u128>> pin; unsigned solverMs = 60000; };

struct Shared {
    std::mutex mx; std::condition_variable cv; std::deque<Work> q; unsigned idle = 0; bool stop = false; std::atomic<unsigned> waiting{0};
    u64 paths = 0, infeasible = 0, inconclusive = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, instrs = 0, decisions = 0, asserts = 0, assertQueries = 0; double solver = 0;
    std::map<u64, u64> reach; std::map<u64, u64> assertIds; std::vector<Violation> viol; std::set<std::string> violKeys; std::vector<Sample> samples; std::set<std::string> notes; u64 sampleSeen = 0; u64 rng = 1;
    std::vector<std::vector<u8>> cov; // by function id
    bool timeout = false; Clk::time_point t0 = Clk::now(); unsigned maxDepth = 0;
};

static Module M;
static std::vector<Function*> fnOf;  // id -> function
static std::vector<Global*> glOf;
static Cfg cfg;

static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
static bool pre(const std::string& s, const char* t) { return s.compare(0, strlen(t), t) == 0; }
static bool suf(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }

static void classify(Function* f) {
    const std::string& n = f->name;
    auto set = [&](int k) { f->intercept = k; f->what = n; };
    if (pre(n, "sym_")) {
        if (n == "sym_u8" || n == "sym_u16" || n == "sym_u32" || n == "sym_u64" || n == "sym_u128" || n == "sym_bool") set(I_SYM);
        else if (n == "sym_assume") set(I_ASSUME); else if (n == "sym_assert") set(I_ASSERT); else if (n == "sym_reach") set(I_REACH);
        else if (n == "sym_out") set(I_OUT); else if (n == "sym_par") set(I_PAR); else if (n == "sym_live") set(I_LIVE); else if (n == "sym_pick") set(I_PICK); else if (n == "sym_param") set(I_PARAM);
        return;
    }
    if (has(n, "___rust_alloc_zeroed")) set(I_ALLOCZ); else if (has(n, "___rust_alloc_error_handler") || has(n, "rust_no_alloc_shim")) set(has(n, "no_alloc_shim") ? I_NOP : I_PANIC);
    else if (suf(n, "12___rust_alloc")) set(I_ALLOC); else if (has(n, "___rust_dealloc")) set(I_DEALLOC); else if (has(n, "___rust_realloc")) set(I_REALLOC);
    else if (has(n, "4core9panicking") && !pre(n, "llvm.")) set(I_PANIC);
    else if (has(n, "rust_begin_unwind") || has(n, "handle_alloc_error") || has(n, "3std9panicking") || has(n, "rust_panic")) set(I_PANIC);
    else if (n == "sched_yield") set(I_YIELD); else if (n == "syscall") set(I_SYSCALL);
    else if (n == "abort" || n == "exit" || n == "_exit") set(I_ABORT);
    else if (n == "bcmp" || n == "memcmp") set(I_BCMP); else if (n == "strlen") set(I_STRLEN);
    else if (n == "memcpy" || n == "memmove") set(I_MEMCPY); else if (n == "memset") set(I_MEMSET);
    else if (pre(n, "llvm.")) {
        if (pre(n, "llvm.x86.sse2.pause")) set(I_YIELD); else if (pre(n, "llvm.memcpy") || pre(n, "llvm.memmove")) set(I_MEMCPY); else if (pre(n, "llvm.memset")) set(I_MEMSET);
        else if (pre(n, "llvm.ctpop")) set(I_CTPOP); else if (pre(n, "llvm.cttz")) set(I_CTTZ); else if (pre(n, "llvm.ctlz")) set(I_CTLZ);
        else if (pre(n, "llvm.umax") || pre(n, "llvm.umin") || pre(n, "llvm.smax") || pre(n, "llvm.smin")) set(I_MINMAX);
        else if (has(n, "with.overflow")) set(I_OVF); else if (has(n, ".sat.")) set(I_SAT); else if (pre(n, "llvm.fsh")) set(I_FSH);
        else if (pre(n, "llvm.bswap")) set(I_BSWAP); else if (pre(n, "llvm.bitreverse")) set(I_BITREV); else if (pre(n, "llvm.abs")) set(I_ABS);
        else if (pre(n, "llvm.ucmp") || pre(n, "llvm.scmp")) set(I_CMP3); else if (pre(n, "llvm.expect")) set(I_EXPECT); else if (has(n, "trap")) set(I_TRAP);
        else if (pre(n, "llvm.threadlocal")) set(I_TLS); else if (pre(n, "llvm.is.constant")) set(I_FALSE); else if (pre(n, "llvm.assume")) set(I_NOP);
    }
}

struct Worker {
    Shared& S; Pool P; Z3_solver sol = nullptr; u64 pathNo = 0;
    std::vector<Expr*> pc;           // constraints of the current path
    std::vector<Entry> trail; size_t cursor = 0, prefixLen = 0;
    std::vector<u128> model; u64 ep = 1;
    std::vector<Work> local;
    ObjTab objs; std::vector<Obj*> pool; std::vector<u32> dirty;
    u32 nextId; u64 liveHeap = 0; u64 instrs = 0;
    unsigned nvars = 0; std::vector<std::pair<unsigned, unsigned>> inputs; // (width,var)
    std::vector<Val> outs; std::set<u64> reached; std::set<u64> assertsSeen;
    u64 queries = 0, qsat = 0, qunsat = 0, qunk = 0, totInstr = 0, decisions = 0, assertQ = 0; double stime = 0;
    std::vector<std::vector<u8>> cov;
    std::vector<std::string> notes;

    struct Frame { Function* f; unsigned blk, ip; size_t base; const Instr* call; std::vector<u32> allocas; };
    std::vector<Frame> fr; std::vector<Val> regs;

    Worker(Shared& s) : S(s) { initZ3(); for (u32 i = 0; i < M.nextId; i++) objs.push_back(nullptr); cov.resize(M.nextId); }
    void initZ3() {
        Z3_config c = Z3_mk_config(); P.ctx = Z3_mk_context_rc(c); Z3_del_config(c);
        Z3_set_error_handler(P.ctx, [](Z3_context cx, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cx, e)); exit(3); });
        newSolver();
    }
    void newSolver() {
        sol = Z3_mk_solver_for_logic(P.ctx, Z3_mk_string_symbol(P.ctx, "QF_BV")); Z3_solver_inc_ref(P.ctx, sol);
        Z3_params p = Z3_mk_params(P.ctx); Z3_params_inc_ref(P.ctx, p); Z3_params_set_uint(P.ctx, p, Z3_mk_string_symbol(P.ctx, "timeout"), cfg.solverMs); Z3_solver_set_params(P.ctx, sol, p); Z3_params_dec_ref(P.ctx, p);
    }
    void maybeRecycle() { // bound memory: drop all expressions and the solver context between paths
        static const u64 LIM = 50; // literals per solver before it is rebuilt (fastest measured)
        if (lits >= LIM) { Z3_solver_dec_ref(P.ctx, sol); for (auto* e : P.all) e->lit = nullptr; lits = 0; newSolver(); }
        if (P.all.size() < 400000) return;
        Z3_solver_dec_ref(P.ctx, sol); Z3_del_context(P.ctx);
        for (auto* e : P.all) delete e;
        P.all.clear(); P.tab.clear(); lits = 0; initZ3();
    }
    // ---------------------------------------------------------------- solver
    // One incremental solver for the worker's whole life: every constraint gets a defining literal once,
    // a query is a check under assumptions, and unsat cores are remembered per expression.
    u64 lits = 0;
    Z3_ast literal(Expr* c) {
        if (c->lit) return c->lit;
        if (c->op == X::Xor && P.isk(c->b)) { Z3_ast l = literal(c->a); return c->lit = P.keep(Z3_mk_not(P.ctx, l)); }
        std::string n = "p" + std::to_string(lits++); Z3_ast l = P.keep(Z3_mk_const(P.ctx, Z3_mk_string_symbol(P.ctx, n.c_str()), Z3_mk_bool_sort(P.ctx)));
        Z3_solver_assert(P.ctx, sol, Z3_mk_iff(P.ctx, l, P.tb(c))); return c->lit = l;
    }
    // 1 sat (model in out), 0 unsat, -1 unknown
    int query(Expr* c, std::vector<u128>* out) {
        if (P.isk(c)) { if (!c->v) return 0; }
        else for (auto& core : c->cores) { bool in = true; for (auto* q : core) if (known(q) != 1) { in = false; break; } if (in) { cacheHits++; return 0; } }
        auto t = Clk::now();
        std::vector<Z3_ast> as; for (auto* q : pc) as.push_back(literal(q)); if (!P.isk(c)) as.push_back(literal(c));
        Z3_lbool r = Z3_solver_check_assumptions(P.ctx, sol, as.size(), as.data()); queries++;
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (res == 1) { qsat++;
            if (out) { Z3_model m = Z3_solver_get_model(P.ctx, sol); Z3_model_inc_ref(P.ctx, m); out->assign(nvars, 0);
                for (unsigned i = 0; i < nvars; i++) { Expr* v = varE[i]; Z3_ast a = nullptr; if (Z3_model_eval(P.ctx, m, P.tv(v), true, &a) && a) { Z3_inc_ref(P.ctx, a); const char* s = Z3_get_numeral_string(P.ctx, a); u128 x = 0; for (; *s; s++) if (isdigit((unsigned char)*s)) x = x * 10 + (*s - '0'); (*out)[i] = x; Z3_dec_ref(P.ctx, a); } }
                Z3_model_dec_ref(P.ctx, m);
                // independent re-check: the model must satisfy the query under our own evaluator
                u64 e2 = ++P.epoch; bool ok = P.eval(c, *out, e2); for (auto* q : pc) ok = ok && P.eval(q, *out, e2);
                if (!ok) { notes.push_back("solver model does not satisfy the query"); res = -1; qunk++; qsat--; } } }
        else if (res == 0) { qunsat++;
            if (!P.isk(c)) { Z3_ast_vector cv = Z3_solver_get_unsat_core(P.ctx, sol); Z3_ast_vector_inc_ref(P.ctx, cv); std::vector<Expr*> core; std::set<Z3_ast> in; for (unsigned i = 0; i < Z3_ast_vector_size(P.ctx, cv); i++) in.insert(Z3_ast_vector_get(P.ctx, cv, i)); for (size_t i = 0; i < pc.size(); i++) if (in.count(as[i])) core.push_back(pc[i]); Z3_ast_vector_dec_ref(P.ctx, cv); if (c->cores.size() < 16) c->cores.push_back(core); } }
        else qunk++;
        stime += since(t);
        return res;
    }
    u64 cacheHits = 0;
    std::vector<Expr*> varE;
    u128 ev(Expr* e) { return P.eval(e, model, ep); }
    void setModel(std::vector<u128> m) { model.swap(m); ep = ++P.epoch; }
    void constrain(Expr* c) { if (!P.isk(c)) { pc.push_back(c); learn(c, true); } }

    [[noreturn]] void inconclusive(const std::string& why) { notes.push_back(why); throw PathEnd{3}; }
    std::string show(Expr* e, int d = 0) { static const char* n[] = {"k","v","+","-","*","/","%","s/","s%","<<",">>","s>>","&","|","^","==","<","<=","s<","s<=","ite","zx","sx","ex","cat"}; if (e->op == X::Const) return std::to_string((u64)e->v); if (e->op == X::Var) return "x" + std::to_string(e->lo); if (d > 12) return "..."; std::string r = std::string("(") + n[(int)e->op]; if (e->op == X::Extract) r += std::to_string(e->lo) + ":" + std::to_string(e->w); for (Expr* q : {e->a, e->b, e->c}) if (q) r += " " + show(q, d + 1); return r + ")"; }
    // concrete mode replays cfg.fixed; pinned inputs are constants of the job; all others come from the model
    u128 inputVal(size_t i, const std::vector<u128>& m) { u128 k = maskw(inputs[i].first); if (cfg.concrete) return i < cfg.fixed.size() ? cfg.fixed[i] & k : 0; if (i < cfg.pin.size() && cfg.pin[i].first) return cfg.pin[i].second & k; return inputs[i].second < m.size() ? m[inputs[i].second] & k : 0; }
    [[noreturn]] void violation(const std::string& kind, u64 id, const std::string& msg, const std::vector<u128>& m) {
        Violation v; v.entry = cfg.entry; v.kind = kind; v.id = id; v.msg = msg;
        for (size_t i = 0; i < inputs.size(); i++) v.inputs.push_back({inputs[i].first, inputVal(i, m)});
        for (auto it = fr.rbegin(); it != fr.rend(); ++it) v.stack.push_back(it->f->name);
        if (getenv("LIRSYM_DEBUG")) { fprintf(stderr, "== %s %s\n", kind.c_str(), msg.c_str()); for (auto* c : pc) fprintf(stderr, "  %d %s\n", (int)P.eval(c, m, ++P.epoch), show(c).c_str()); for (auto x : m) fprintf(stderr, " m=%llu", (unsigned long long)x); fprintf(stderr, "\n"); }
        report(v); throw PathEnd{2};
    }
    void report(Violation& v) {
        std::lock_guard<std::mutex> l(S.mx);
        std::string key = v.kind + "/" + std::to_string(v.id) + "/" + (v.kind == "assert" ? "" : v.stack.empty() ? "" : v.stack[0] + (v.stack.size() > 1 ? v.stack[1] : ""));
        if (S.violKeys.insert(key).second) { S.viol.push_back(v); if (S.viol.size() >= cfg.maxViol) { S.stop = true; S.cv.notify_all(); } }
    }
    void checkTaint(Expr* e, const char* what) { if (e->taint) violation("uninit", 0, std::string("decision depends on uninitialised memory: ") + what, model); }

    void learn(Expr* c, bool v) { c->kpath = pathNo; c->kval = v; if (c->op == X::Xor && P.isk(c->b)) { c->a->kpath = pathNo; c->a->kval = !v; } }
    int known(Expr* c) { if (c->kpath == pathNo) return c->kval; if (c->op == X::Xor && P.isk(c->b) && c->a->kpath == pathNo) return !c->a->kval; return -1; }
    bool decide(Expr* c, const char* what) { if (P.isk(c)) return c->v; int k = known(c); if (k >= 0) return k; bool r = decide1(c, what); learn(c, r); return r; }
    bool decide1(Expr* c, const char* what) {
        checkTaint(c, what);
        if (cursor < trail.size()) { Entry& te = trail[cursor++]; if (!te.implied) constrain(te.taken ? c : P.nt(c)); return te.taken; }
        decisions++;
        bool v = ev(c); std::vector<u128> m2;
        Expr* other = v ? P.nt(c) : c;
        int r = query(other, &m2);
        if (r < 0) notes.push_back("solver returned unknown on a branch");
        if (r != 0 && r > 0) { Work w; w.prefix = trail; Entry e; e.taken = !v; w.prefix.push_back(e); w.model = std::move(m2); local.push_back(std::move(w)); }
        if (r < 0) { unknowns++; }
        Entry e; e.taken = v; e.implied = r == 0; trail.push_back(e); cursor++;
        if (r != 0) constrain(v ? c : P.nt(c));
        return v;
    }
    u64 unknowns = 0;
    u128 concretize(Val v, unsigned w, const char* what) {
        if (!v.e) return v.c;
        checkTaint(v.e, what);
        for (unsigned n = 0;; n++) {
            if (n > 4096) inconclusive("concretisation of a value with more than 4096 possibilities");
            if (cursor < trail.size()) { Entry& e = trail[cursor++]; u128 x = (u128)e.vh << 64 | e.v; Expr* c = P.bin(X::Eq, v.e, P.k(w, x)); if (!e.implied) constrain(e.taken ? c : P.nt(c)); if (e.taken) return x; continue; }
            decisions++;
            u128 x = ev(v.e); Expr* c = P.bin(X::Eq, v.e, P.k(w, x)); std::vector<u128> m2;
            int r = query(P.nt(c), &m2); if (r < 0) { unknowns++; notes.push_back("solver returned unknown on a concretisation"); }
            Entry e; e.v = (u64)x; e.vh = (u64)(x >> 64);
            if (r > 0) { Work wk; wk.prefix = trail; Entry e2 = e; e2.taken = false; wk.prefix.push_back(e2); wk.model = std::move(m2); local.push_back(std::move(wk)); }
            e.implied = r == 0; trail.push_back(e); cursor++; if (r != 0) constrain(c); return x;
        }
    }
    void assume(Expr* c) {
        if (P.isk(c)) { if (!c->v) throw PathEnd{1}; return; }
        checkTaint(c, "assume");
        if (cursor < prefixLen) { constrain(c); return; }
        if (ev(c)) { constrain(c); return; }
        std::vector<u128> m2; int r = query(c, &m2);
        if (r == 0) throw PathEnd{1};
        if (r < 0) inconclusive("solver returned unknown on an assumption");
        constrain(c); setModel(m2);
    }
    void assertE(Expr* c, u64 id) {
        assertsSeen.insert(id);
        if (P.isk(c)) { if (!c->v) violation("assert", id, "assertion fails", model); return; }
        checkTaint(c, "assert");
        if (cursor < prefixLen) { constrain(c); return; } // already proved under a weaker path condition
        if (!ev(c)) violation("assert", id, "assertion fails", model);
        std::vector<u128> m2; assertQ++; int r = query(P.nt(c), &m2);
        if (r > 0) violation("assert", id, "assertion fails", m2);
        if (r < 0) inconclusive("solver returned unknown on an assertion");
        constrain(c);
    }

    // ---------------------------------------------------------------- threads
    // sym_par runs two functions as threads until both return. Which thread starts and every switch is a fresh
    // symbolic bit, decided like any branch: switches happen before atomic operations on memory that existed before
    // the threads did (at most `preempt` of them), where a thread yields and where one ends. Two accesses to a byte,
    // one of them a write and not both atomic, that no release/acquire pair orders are a race.
    struct Thr { std::vector<Frame> fr; std::vector<Val> regs; bool done = false, skip = false; u32 vc[2] = {0, 0}, acq[2] = {0, 0}, rel[2] = {0, 0}; std::map<u32, u32> tls; };
    Thr thr[2]; int cur = -1; bool atomicNow = false; unsigned preempt = 0, yields = 0; u32 parBase = 0; std::string sched;
    std::vector<Frame> mainFr; std::vector<Val> mainRegs;
    struct Clock { u32 v[2] = {0, 0}; }; std::map<u64, Clock> sync; std::vector<u32> shadowed;
    static void join(u32* a, const u32* b) { for (int i = 0; i < 2; i++) a[i] = std::max(a[i], b[i]); }
    bool bit() { return decide(newVar(1, false), "schedule"); }
    void resetThreads() { for (auto& t : thr) t = Thr(); cur = -1; atomicNow = false; sync.clear(); sched.clear(); mainFr.clear(); mainRegs.clear(); }
    void parStart(const Val* a) {
        if (cur >= 0) inconclusive("nested threads");
        resetThreads(); parBase = objs.size(); preempt = (unsigned)concretize(a[4], 32, "preemptions"); yields = 0; 
        mainFr.swap(fr); mainRegs.swap(regs);
        for (int t = 0; t < 2; t++) {
            u64 p = ptr(a[2 * t], "thread function"), id = p >> 32; if ((p & 0xffffffffu) || id >= fnOf.size() || !fnOf[id]) violation("oob", 0, "thread at an invalid address", model);
            std::vector<Val> args(1, a[2 * t + 1]); fr.clear(); regs.clear(); enter(fnOf[id], nullptr, args); thr[t].fr.swap(fr); thr[t].regs.swap(regs); thr[t].vc[t] = 1;
        }
        resume(bit() ? 1 : 0);
    }
    void resume(int t) { cur = t; fr.swap(thr[t].fr); regs.swap(thr[t].regs); sched += (sched.empty() ? "" : ",") + std::string(t ? "B" : "A"); }
    void suspend() { fr.swap(thr[cur].fr); regs.swap(thr[cur].regs); }
    void switchTo(int t) { sched += "@" + std::to_string(instrs); suspend(); resume(t); }
    bool threadEnd() { // the running thread returned; false: the main thread goes on
        thr[cur].done = true; suspend();
        if (!thr[1 - cur].done) { resume(1 - cur); return true; }
        cur = -1; fr.swap(mainFr); regs.swap(mainRegs);
        for (u32 i : shadowed) if (i < objs.size() && objs[i]) objs[i]->sh.clear();
        shadowed.clear(); return false;
    }
    void yield() { if (cur >= 0 && !thr[1 - cur].done) { if (++yields > 64) inconclusive("threads that wait for each other"); switchTo(1 - cur); } else if (cur >= 0 && ++yields > 64) inconclusive("a thread that waits for one that ended"); }
    // Before an atomic operation: may the other thread go first?
    bool preempted(u64 ad, Frame& F) {
        if (cur < 0 || (ad >> 32) >= parBase) return false;
        if (thr[cur].skip) { thr[cur].skip = false; return false; }
        if (!preempt || thr[1 - cur].done) return false;
        if (!bit()) return false;
        preempt--; F.ip--; thr[cur].skip = true; switchTo(1 - cur); return true;
    }
    static bool acquires(u8 o) { return o == 2 || o == 4; }
    static bool releases(u8 o) { return o == 3 || o == 4; }
    void atomicLoaded(u64 ad, u8 ord) { if (cur < 0) return; Thr& t = thr[cur]; auto it = sync.find(ad); if (it == sync.end()) return; join(acquires(ord) ? t.vc : t.acq, it->second.v); }
    void atomicStored(u64 ad, u8 ord, bool rmw) {
        if (cur < 0) return; Thr& t = thr[cur]; Clock& c = sync[ad]; if (!rmw) c = Clock();
        join(c.v, releases(ord) ? t.vc : t.rel); if (releases(ord)) t.vc[cur]++;
    }
    void fence(u8 ord) { if (cur < 0) return; Thr& t = thr[cur]; if (acquires(ord)) join(t.vc, t.acq); if (releases(ord)) { join(t.rel, t.vc); t.vc[cur]++; } }
    void touch(Obj* o, u32 id, u64 off, u64 n, bool write) {
        if (o->kind == 2 || (o->kind == 4 && id >= parBase) || !n) return;
        if (o->sh.empty()) { o->sh.resize(o->size); shadowed.push_back(id); }
        int k = (atomicNow ? 2 : 0) + write, u = 1 - cur; u32 *mine = thr[cur].vc, me = fr.empty() ? 0 : fr.back().f->id;
        for (u64 i = off; i < off + n; i++) {
            Cell& c = o->sh[i];
            for (int q = 0; q < 4; q++) if (c.clk[u][q] > mine[u] && (write || (q & 1)) && !(atomicNow && q >= 2))
                violation("race", 0, std::string(write ? "a write" : "a read") + " and the other thread's " + (q & 1 ? "write" : "read") + " in " + (fnOf[c.fn[u][q]] ? fnOf[c.fn[u][q]]->name : "?") + " are not ordered (schedule " + sched + ")", model);
            c.clk[cur][k] = mine[cur]; c.fn[cur][k] = me;
        }
    }

    // ---------------------------------------------------------------- memory
    Obj* globalObj(u32 id) {
        if (id < glOf.size() && glOf[id]) {
            Global* g = glOf[id]; M.ensure(g);
            Obj* o = new Obj(); o->size = g->data.size(); o->kind = g->constant ? 2 : 1; o->d = g->data; o->st = g->st; objs[id] = o; if (!g->constant) dirty.push_back(id); return o;
        }
        return nullptr;
    }
    Obj* resolve(u64 addr, u64 n, bool write, const char* what) {
        u64 id = addr >> 32, off = addr & 0xffffffffu;
        if (id >= objs.size() || id < 16) violation("oob", 0, std::string(what) + ": access through an invalid pointer", model);
        Obj* o = objs[id]; if (!o) o = globalObj(id);
        if (!o) violation("oob", 0, std::string(what) + ": access to a code or unknown address", model);
        if (o->freed) violation("uaf", 0, std::string(what) + (o->kind == 4 ? ": use of a dead stack slot" : ": use after free"), model);
        if (off + n > o->size) violation("oob", 0, std::string(what) + ": out-of-bounds access", model);
        if (o->lazy) o->touch();
        if (write) { if (o->kind == 2) violation("oob", 0, std::string(what) + ": write to constant memory", model); }
        if (cur >= 0) touch(o, id, off, n, write);
        return o;
    }
    void bury(u32 id) { Obj* o = objs[id]; o->freed = true; if (cur >= 0 || !o->sh.empty()) return; objs.bury(id); o->slim(); pool.push_back(o); }
    Obj* fresh(u64 n, u8 kind, u8 init, u32& id) {
        Obj* o; if (!pool.empty()) { o = pool.back(); pool.pop_back(); } else o = new Obj();
        o->reset(n, kind, init); id = objs.size(); objs.push_back(o); return o;
    }
    Val loadV(Obj* o, u64 off, unsigned w) {
        unsigned n = (w + 7) / 8; Val v; bool conc = true;
        for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { conc = false; break; }
        if (conc) { for (unsigned i = 0; i < n; i++) v.c |= (u128)o->d[off + i] << (8 * i); v.c &= maskw(w); return v; }
        if (o->st[off] == 2) { // whole expression?
            auto& s0 = o->sy[off];
            if (s0.second == 0 && s0.first->w == 8 * n) { bool ok = true; for (unsigned i = 1; i < n && ok; i++) ok = o->st[off + i] == 2 && o->sy[off + i].first == s0.first && o->sy[off + i].second == i; if (ok) return mk(P.extract(s0.first, 0, w)); }
        }
        Expr* r = nullptr;
        for (unsigned i = 0; i < n; i++) {
            Expr* b;
            if (o->st[off + i] == 1) b = P.k(8, o->d[off + i]);
            else if (o->st[off + i] == 2) { auto& s = o->sy[off + i]; b = P.extract(s.first, s.second * 8, 8); }
            else {              // one unknown value for the whole run of uninitialised bytes
                unsigned k = 1; while (i + k < n && !o->st[off + i + k]) k++;
                b = newVar(8 * k, true);
                if (o->kind != 2) { if (o->sy.empty()) o->sy.resize(o->size); for (unsigned q = 0; q < k; q++) { o->sy[off + i + q] = {b, q}; o->st[off + i + q] = 2; } }
                i += k - 1;
            }
            r = r ? P.concat(b, r) : b;
        }
        return mk(P.extract(r, 0, w));
    }
    void storeV(Obj* o, u64 off, unsigned w, const Val& v) {
        unsigned n = (w + 7) / 8;
        if (!v.e) { for (unsigned i = 0; i < n; i++) { o->d[off + i] = (u8)(v.c >> (8 * i)); o->st[off + i] = 1; } return; }
        Expr* e = P.zext(v.e, 8 * n); if (o->sy.empty()) o->sy.resize(o->size);
        for (unsigned i = 0; i < n; i++) { o->sy[off + i] = {e, i}; o->st[off + i] = 2; }
    }
    void copyMem(u64 dst, u64 src, u64 n) {
        if (!n) return;
        Obj* s = resolve(src, n, false, "memcpy source"); Obj* d = resolve(dst, n, true, "memcpy destination");
        u64 so = src & 0xffffffffu, dof = dst & 0xffffffffu;
        std::vector<u8> bd(s->d.begin() + so, s->d.begin() + so + n), bs(s->st.begin() + so, s->st.begin() + so + n);
        bool anyS = false; for (u8 x : bs) if (x == 2) anyS = true;
        std::vector<std::pair<Expr*, u32>> by; if (anyS) by.assign(s->sy.begin() + so, s->sy.begin() + so + n);
        memcpy(&d->d[dof], bd.data(), n); memcpy(&d->st[dof], bs.data(), n);
        if (anyS) { if (d->sy.empty()) d->sy.resize(d->size); for (u64 i = 0; i < n; i++) if (bs[i] == 2) d->sy[dof + i] = by[i]; }
    }
    Val mk(Expr* e) { Val v; if (P.isk(e)) v.c = e->v; else v.e = e; return v; }
    Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : P.k(w, v.c); }
    Expr* newVar(unsigned w, bool undef) { Expr* e = P.var(w, nvars, undef); if (varE.size() <= nvars) varE.resize(nvars + 1); varE[nvars] = e; nvars++; return e; }

    // ---------------------------------------------------------------- instruction helpers
    Val get(const Opnd& o, size_t base, unsigned i = 0) {
        if (!o.isConst) return regs[base + o.slot + i];
        const CVal& c = o.cv[i]; Val v;
        if (c.undef) { v.e = newVar(undefWidth(o, i), true); return v; }
        v.c = c.c; return v;
    }
    unsigned undefWidth(const Opnd& o, unsigned i) { std::vector<Leaf> l; M.leavesOf(o.ty, 0, l); return l[i].width; }
    Val binop(Op op, unsigned w, const Val& a, const Val& b) {
        static const X map[] = {X::Add, X::Sub, X::Mul, X::UDiv, X::SDiv, X::URem, X::SRem, X::Shl, X::LShr, X::AShr, X::And, X::Or, X::Xor};
        X x = map[(int)op - (int)Op::Add];
        if (op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem) { if (!b.e) { if (!b.c) violation("ub", 0, "division by zero", model); } else if (decide(P.bin(X::Eq, b.e, P.k(w, 0)), "divisor")) violation("ub", 0, "division by zero", model); }
        if (!a.e && !b.e) { Val v; v.c = Pool::fold(x, w, a.c, b.c, w); return v; }
        return mk(P.bin(x, ex(a, w), ex(b, w)));
    }
    Val icmp(int p, unsigned w, const Val& a, const Val& b) {
        if (!a.e && !b.e) { bool r; switch (p) { case 0: r = a.c == b.c; break; case 1: r = a.c != b.c; break; case 2: r = a.c > b.c; break; case 3: r = a.c >= b.c; break; case 4: r = a.c < b.c; break; case 5: r = a.c <= b.c; break;
            default: { i128 x = Pool::sx(a.c, w), y = Pool::sx(b.c, w); r = p == 6 ? x > y : p == 7 ? x >= y : p == 8 ? x < y : x <= y; } } Val v; v.c = r; return v; }
        Expr *x = ex(a, w), *y = ex(b, w);
        switch (p) { case 0: return mk(P.bin(X::Eq, x, y)); case 1: return mk(P.nt(P.bin(X::Eq, x, y))); case 2: return mk(P.bin(X::Ult, y, x)); case 3: return mk(P.bin(X::Ule, y, x)); case 4: return mk(P.bin(X::Ult, x, y)); case 5: return mk(P.bin(X::Ule, x, y));
            case 6: return mk(P.bin(X::Slt, y, x)); case 7: return mk(P.bin(X::Sle, y, x)); case 8: return mk(P.bin(X::Slt, x, y)); default: return mk(P.bin(X::Sle, x, y)); }
    }
    u64 ptr(const Val& v, const char* what) { return v.e ? (u64)concretize(v, 64, what) : (u64)v.c; }

    void heapFree(u64 addr, u64 size, bool checkSize, u64 align) {
        u64 id = addr >> 32, off = addr & 0xffffffffu;
        if (id < M.nextId || id >= objs.size() || objs[id]->kind != 3 || off) violation("free", 0, "deallocation of a pointer that is not a heap block", model);
        Obj* o = objs[id]; if (o->freed) violation("free", 0, "double free", model);
        if (checkSize && (o->size != size || o->align != align)) violation("free", 0, "deallocation with a layout different from the allocation's", model);
        if (cur >= 0) touch(o, id, 0, o->size, true);
        bury((u32)id); liveHeap--;
    }
    u64 heapAlloc(u64 n, u64 align, u8 init) {
        if (n > (1u << 30)) violation("hang", 0, "allocation larger than 1 GiB", model);
        u32 id; Obj* o = fresh(n, 3, init, id); o->align = align; liveHeap++;
        if (liveHeap > 2000000) violation("hang", 0, "more than 2 million live heap blocks", model);
        return (u64)id << 32;
    }

    void intrinsic(Function* f, const Instr& I, size_t base) {
        auto arg = [&](unsigned i) { return get(I.o.at(i), base); };
        auto set = [&](const Val& v) { if (I.dstn) regs[base + I.dst] = v; };
        const std::string& n = f->name;
        unsigned w = I.ty && I.ty->scalar() ? I.ty->width() : 0;
        switch (f->intercept) {
        case I_NOP: break;
        case I_PAR: { Val a[5]; for (unsigned i = 0; i < 5; i++) a[i] = arg(i); parStart(a); break; }
        case I_YIELD: yield(); break;
        case I_SYSCALL: { Val v; if (cur < 0 || I.o.empty() || concretize(arg(0), 64, "system call") != 202) inconclusive("a system call"); if (I.dstn) regs[base + I.dst] = v; yield(); break; } // futex: waits may end spuriously
        case I_SYM: {
            if (cur >= 0) inconclusive("an input read inside a thread");
            if (cfg.concrete) { Val v; v.c = inputs.size() < cfg.fixed.size() ? cfg.fixed[inputs.size()] & maskw(w) : 0; inputs.push_back({w, 0}); set(v); break; }
            if (inputs.size() < cfg.pin.size() && cfg.pin[inputs.size()].first) { Val v; v.c = cfg.pin[inputs.size()].second & maskw(w); inputs.push_back({w, ~0u}); set(v); break; }
            inputs.push_back({w, nvars}); Val v; v.e = newVar(w, false); set(v); break; }
        case I_PARAM: { u64 i = concretize(arg(0), 32, "param"); Val v; v.c = i < cfg.params.size() ? cfg.params[i] : 0; set(v); break; }
        case I_ASSUME: assume(P.extract(ex(arg(0), I.o[0].ty->width()), 0, 1)); break;
        case I_ASSERT: assertE(P.extract(ex(arg(0), I.o[0].ty->width()), 0, 1), concretize(arg(1), 32, "assert id")); break;
        case I_REACH: reached.insert((u64)concretize(arg(0), 32, "reach id")); break;
        case I_OUT: outs.push_back(arg(0)); break;
        case I_LIVE: { Val v; v.c = liveHeap; set(v); break; }
        case I_PICK: { Val v; v.c = concretize(arg(0), w, "pick"); set(v); break; }
        case I_PANIC: violation("panic", 0, "panic", model);
        case I_ABORT: violation("abort", 0, "abort", model);
        case I_TRAP: violation("ub", 0, "trap reached", model);
        case I_ALLOC: case I_ALLOCZ: { u64 sz = concretize(arg(0), 64, "alloc size"), al = concretize(arg(1), 64, "alloc align"); Val v; v.c = heapAlloc(sz, al, f->intercept == I_ALLOCZ ? 1 : 0); set(v); break; }
        case I_DEALLOC: { u64 p = ptr(arg(0), "dealloc"); heapFree(p, concretize(arg(1), 64, "size"), true, concretize(arg(2), 64, "align")); break; }
        case I_REALLOC: { u64 p = ptr(arg(0), "realloc"), os = concretize(arg(1), 64, "size"), al = concretize(arg(2), 64, "align"), ns = concretize(arg(3), 64, "size"); u64 q = heapAlloc(ns, al, 0); resolve(p, 0, false, "realloc"); copyMem(q, p, std::min(os, ns)); heapFree(p, os, true, al); Val v; v.c = q; set(v); break; }
        case I_MEMCPY: { u64 d = ptr(arg(0), "memcpy"), s = ptr(arg(1), "memcpy"), len = concretize(arg(2), 64, "memcpy length"); copyMem(d, s, len); if (I.dstn) { Val v; v.c = d; set(v); } break; }
        case I_MEMSET: { u64 d = ptr(arg(0), "memset"), len = concretize(arg(2), 64, "memset length"); Val b = arg(1); if (len) { Obj* o = resolve(d, len, true, "memset"); u64 off = d & 0xffffffffu; if (!b.e) { memset(&o->d[off], (int)(u8)b.c, len); memset(&o->st[off], 1, len); } else for (u64 i = 0; i < len; i++) storeV(o, off + i, 8, mk(P.extract(b.e, 0, 8))); } if (I.dstn) { Val v; v.c = d; set(v); } break; }
        case I_CTPOP: { Val a = arg(0); if (!a.e) { Val v; v.c = __builtin_popcountll((u64)a.c) + __builtin_popcountll((u64)(a.c >> 64)); set(v); } else set(mk(P.popcount(a.e))); break; }
        case I_CTTZ: { Val a = arg(0); if (!a.e) { Val v; v.c = w; for (unsigned i = 0; i < w; i++) if ((a.c >> i) & 1) { v.c = i; break; } set(v); } else { Expr* r = P.k(w, w); for (int i = w - 1; i >= 0; i--) r = P.ite(P.extract(a.e, i, 1), P.k(w, i), r); set(mk(r)); } break; }
        case I_CTLZ: { Val a = arg(0); if (!a.e) { Val v; v.c = w; for (int i = w - 1; i >= 0; i--) if ((a.c >> i) & 1) { v.c = w - 1 - i; break; } set(v); } else { Expr* r = P.k(w, w); for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(a.e, i, 1), P.k(w, w - 1 - i), r); set(mk(r)); } break; }
        case I_MINMAX: { Val a = arg(0), b = arg(1); bool sg = n[5] == 's', mx = n[7] == 'a'; Val lt = icmp(sg ? 8 : 4, w, a, b); if (!lt.e) set((lt.c != 0) != mx ? a : b); else set(mk(P.ite(lt.e, ex(mx ? b : a, w), ex(mx ? a : b, w)))); break; }
        case I_OVF: {
            Val a = arg(0), b = arg(1); unsigned aw = I.o[0].ty->width(); bool sg = n[5] == 's'; char o = n[6]; // llvm.sadd / usub / umul
            Op op = o == 'a' ? Op::Add : o == 's' ? Op::Sub : Op::Mul; Val r = binop(op, aw, a, b); Val ov;
            if (!a.e && !b.e && aw <= 64) { i128 x = sg ? Pool::sx(a.c, aw) : (i128)a.c, y = sg ? Pool::sx(b.c, aw) : (i128)b.c; bool of; if (!sg && op == Op::Mul) of = (a.c * b.c) > maskw(aw); else { i128 z = op == Op::Add ? x + y : op == Op::Sub ? x - y : x * y; of = sg ? z != Pool::sx((u128)z & maskw(aw), aw) : (z < 0 || (u128)z > maskw(aw)); } ov.c = of; }
            else if (!sg && op == Op::Add) ov = icmp(4, aw, r, a);
            else if (!sg && op == Op::Sub) ov = icmp(4, aw, a, b);
            else if (aw <= 64) { unsigned W = 2 * aw; Expr *x = sg ? P.sext(ex(a, aw), W) : P.zext(ex(a, aw), W), *y = sg ? P.sext(ex(b, aw), W) : P.zext(ex(b, aw), W); Expr* z = P.bin(op == Op::Add ? X::Add : op == Op::Sub ? X::Sub : X::Mul, x, y); Expr* back = sg ? P.sext(P.extract(z, 0, aw), W) : P.zext(P.extract(z, 0, aw), W); ov = mk(P.nt(P.bin(X::Eq, z, back))); }
            else inconclusive("128-bit overflow intrinsic " + n);
            if (I.dstn >= 2) { regs[base + I.dst] = r; regs[base + I.dst + 1] = ov; } break; }
        case I_SAT: { Val a = arg(0), b = arg(1); if (n[5] != 'u') inconclusive("signed saturation"); if (has(n, "usub")) { Val lt = icmp(4, w, a, b); Val r = binop(Op::Sub, w, a, b); Val z; if (!lt.e) set(lt.c ? z : r); else set(mk(P.ite(lt.e, P.k(w, 0), ex(r, w)))); } else { Val r = binop(Op::Add, w, a, b); Val of = icmp(4, w, r, a); Val mxv; mxv.c = maskw(w); if (!of.e) set(of.c ? mxv : r); else set(mk(P.ite(of.e, P.k(w, maskw(w)), ex(r, w)))); } break; }
        case I_FSH: { Val a = arg(0), b = arg(1); u64 s = (u64)concretize(arg(2), w, "funnel shift") % w; bool left = n[8] == 'l'; if (s == 0) { set(left ? a : b); break; } unsigned ls = left ? s : w - s; Val x, y; Val c1, c2; c1.c = ls; c2.c = w - ls; x = binop(Op::Shl, w, a, c1); y = binop(Op::LShr, w, b, c2); set(binop(Op::Or, w, x, y)); break; }
        case I_BSWAP: { Val a = arg(0); Expr* e = ex(a, w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = P.extract(e, i, 8); r = r ? P.concat(r, b) : b; } set(mk(r)); break; }
        case I_BITREV: { Val a = arg(0); Expr* e = ex(a, w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = P.extract(e, i, 1); r = r ? P.concat(r, b) : b; } set(mk(r)); break; }
        case I_ABS: { Val a = arg(0), z; Val neg = icmp(8, w, a, z); Val m = binop(Op::Sub, w, z, a); if (!neg.e) set(neg.c ? m : a); else set(mk(P.ite(neg.e, ex(m, w), ex(a, w)))); break; }
        case I_CMP3: { unsigned aw = I.o[0].ty->width(); bool sg = n[5] == 's'; Val a = arg(0), b = arg(1); Val lt = icmp(sg ? 8 : 4, aw, a, b), eq = icmp(0, aw, a, b); set(mk(P.ite(ex(lt, 1), P.k(w, maskw(w)), P.ite(ex(eq, 1), P.k(w, 0), P.k(w, 1))))); break; }
        case I_EXPECT: set(arg(0)); break;
        case I_TLS: { Val a = arg(0); u64 id = (u64)a.c >> 32; if (cur >= 0 && !a.e && id < M.nextId) { // a copy of its own per thread
                u32& c = thr[cur].tls[id]; if (!c) { Global* g = id < glOf.size() ? glOf[id] : nullptr; if (!g) inconclusive("thread-local that is not a global"); M.ensure(g); Obj* o = fresh(g->data.size(), 1, 0, c); o->d = g->data; o->st = g->st; }
                a.c = (u64)c << 32; }
            set(a); break; }
        case I_FALSE: { Val v; set(v); break; }
        case I_BCMP: { u64 p = ptr(arg(0), "memcmp"), q = ptr(arg(1), "memcmp"), len = concretize(arg(2), 64, "memcmp length"); Expr* r = P.k(w, 0); if (len) { Obj *a = resolve(p, len, false, "memcmp"), *b = resolve(q, len, false, "memcmp"); for (u64 i = len; i-- > 0;) { Expr *x = ex(loadV(a, (p & 0xffffffffu) + i, 8), 8), *y = ex(loadV(b, (q & 0xffffffffu) + i, 8), 8); r = P.ite(P.bin(X::Eq, x, y), r, P.ite(P.bin(X::Ult, x, y), P.k(w, maskw(w)), P.k(w, 1))); } } set(mk(r)); break; }
        case I_STRLEN: { u64 p = ptr(arg(0), "strlen"); Val v; for (;; v.c++) { Obj* o = resolve(p + (u64)v.c, 1, false, "strlen"); Val b = loadV(o, (p + (u64)v.c) & 0xffffffffu, 8); if (concretize(b, 8, "strlen") == 0) break; } set(v); break; }
        default: inconclusive("call to external function " + n);
        }
    }

    void enter(Function* f, const Instr* call, std::vector<Val>& args) {
        M.ensure(f);
        if (!f->defined) inconclusive("call to undefined function " + f->name);
        if (fr.size() > 4000) violation("hang", 0, "call depth above 4000", model);
        size_t base = fr.empty() ? 0 : fr.back().base + fr.back().f->nslots;
        if (regs.size() < base + f->nslots + 64) regs.resize((base + f->nslots + 64) * 2);
        std::fill(regs.begin() + base, regs.begin() + base + f->nslots, Val());
        size_t k = 0; for (size_t i = 0; i < f->params.size(); i++) for (unsigned j = 0; j < f->pn[i]; j++) regs[base + f->params[i] + j] = k < args.size() ? args[k++] : Val();
        auto& c = cov[f->id]; if (c.empty()) c.assign(f->blocks.size(), 0); c[0] = 1;
        fr.push_back(Frame{f, 0, 0, base, call, {}});
    }
    void jump(Frame& F, unsigned to) {
        unsigned from = F.blk; Block& B = F.f->blocks[to];
        for (auto& pm : B.phis) if (pm.first == from) {
            Val tmp[64]; std::vector<Val> big; size_t tot = 0; for (auto& m : pm.second) tot += m.n; Val* t = tmp; if (tot > 64) { big.resize(tot); t = big.data(); }
            size_t i = 0; for (auto& m : pm.second) for (unsigned j = 0; j < m.n; j++) t[i++] = get(m.src, F.base, j);
            i = 0; for (auto& m : pm.second) for (unsigned j = 0; j < m.n; j++) regs[F.base + m.dst + j] = t[i++];
            break;
        }
        F.blk = to; F.ip = 0; cov[F.f->id][to] = 1;
    }
    void run() {
        while (!fr.empty()) {
            Frame& F = fr.back(); const Instr& I = F.f->blocks[F.blk].ins[F.ip++]; size_t base = F.base;
            if (++instrs > cfg.maxInstr) violation("hang", 0, "no termination within the instruction bound", model);
            switch (I.op) {
            case Op::Nop: break;
            case Op::Ret: {
                Val rv[64]; unsigned n = 0; if (!I.o.empty()) { n = I.o[0].n; if (n > 64) inconclusive("wide return"); for (unsigned j = 0; j < n; j++) rv[j] = get(I.o[0], base, j); }
                for (u32 a : F.allocas) bury(a);
                const Instr* c = F.call; fr.pop_back(); if (fr.empty()) { if (cur < 0) return; threadEnd(); break; }
                if (c && c->dstn) for (unsigned j = 0; j < n && j < c->dstn; j++) regs[fr.back().base + c->dst + j] = rv[j];
                break; }
            case Op::Br: jump(F, I.b0); break;
            case Op::CondBr: { Val c = get(I.o[0], base); bool t = c.e ? decide(c.e, "branch") : (c.c & 1); jump(F, t ? I.b0 : I.b1); break; }
            case Op::Switch: {
                Val c = get(I.o[0], base);
                if (!c.e) { unsigned t = I.b0; for (auto& k : I.cases) if (k.first == c.c) { t = k.second; break; } jump(F, t); }
                else { unsigned t = I.b0; bool hit = false; for (auto& k : I.cases) if (decide(P.bin(X::Eq, c.e, P.k(I.w, k.first)), "switch")) { t = k.second; hit = true; break; } (void)hit; jump(F, t); }
                break; }
            case Op::Unreachable: violation("ub", 0, "unreachable code reached", model);
            case Op::Call: {
                Function* f = I.callee; unsigned na = I.o.size();
                if (I.pred) { u64 p = ptr(get(I.o.back(), base), "indirect call"); na--; u64 id = p >> 32; if ((p & 0xffffffffu) || id >= fnOf.size() || !fnOf[id]) violation("oob", 0, "indirect call to an invalid address", model); f = fnOf[id]; }
                if (f->intercept) { intrinsic(f, I, base); break; }
                std::vector<Val> args; for (unsigned i = 0; i < na; i++) for (unsigned j = 0; j < I.o[i].n; j++) args.push_back(get(I.o[i], base, j));
                enter(f, &I, args); break; }
            case Op::Alloca: { u32 id; fresh(I.imm, 4, 0, id); F.allocas.push_back(id); Val v; v.c = (u64)id << 32; regs[base + I.dst] = v; break; }
            case Op::Load: {
                Val a = get(I.o[0], base);
                if (a.e) {
                    if (I.leaves.size() == 1) { // table lookup in constant memory: keep it symbolic
                        u64 guess = (u64)ev(a.e); u64 id = guess >> 32; Obj* o = id < M.nextId ? (objs[id] ? objs[id] : globalObj(id)) : nullptr;
                        if (o && o->kind == 2 && o->size <= 4096) {
                            u64 lo = id << 32; unsigned w = I.leaves[0].width, n = (w + 7) / 8;
                            Expr* off = P.bin(X::Sub, a.e, P.k(64, lo));
                            if (decide(P.bin(X::Ule, off, P.k(64, o->size - n)), "table bounds")) {
                                Expr* r = ex(loadV(o, 0, w), w); for (u64 k = 1; k + n <= o->size; k++) r = P.ite(P.bin(X::Eq, off, P.k(64, k)), ex(loadV(o, k, w), w), r);
                                regs[base + I.dst] = mk(r); break;
                            }
                        }
                    }
                    Val c; c.c = concretize(a, 64, "load address"); a = c;
                }
                u64 ad = (u64)a.c; if (I.leaves.empty()) break; if (I.ord && preempted(ad, F)) break; u64 span = I.leaves.back().off + (I.leaves.back().width + 7) / 8; atomicNow = I.ord; Obj* o = resolve(ad, span, false, "load"); atomicNow = false; if (I.ord) atomicLoaded(ad, I.ord); u64 off = ad & 0xffffffffu;
                if (off & (I.align - 1) && I.align > 1) violation("oob", 0, "misaligned load", model);
                for (unsigned j = 0; j < I.leaves.size(); j++) regs[base + I.dst + j] = loadV(o, off + I.leaves[j].off, I.leaves[j].width);
                break; }
            case Op::Store: {
                if (I.leaves.empty()) break; u64 ad = ptr(get(I.o[1], base), "store address"); if (I.ord && preempted(ad, F)) break; u64 span = I.leaves.back().off + (I.leaves.back().width + 7) / 8; atomicNow = I.ord; Obj* o = resolve(ad, span, true, "store"); atomicNow = false; if (I.ord) atomicStored(ad, I.ord, false); u64 off = ad & 0xffffffffu;
                for (unsigned j = 0; j < I.leaves.size(); j++) storeV(o, off + I.leaves[j].off, I.leaves[j].width, get(I.o[0], base, j));
                break; }
            case Op::AtomicRMW: {
                u64 ad = ptr(get(I.o[0], base), "atomic"); if (preempted(ad, F)) break; unsigned n = I.w / 8; atomicNow = true; Obj* o = resolve(ad, n, true, "atomic"); atomicNow = false; atomicLoaded(ad, I.ord); atomicStored(ad, I.ord, true); u64 off = ad & 0xffffffffu; Val old = loadV(o, off, I.w), v = get(I.o[1], base), r;
                switch (I.pred) { case 0: r = binop(Op::Add, I.w, old, v); break; case 1: r = binop(Op::Sub, I.w, old, v); break; case 2: r = v; break; case 3: r = binop(Op::And, I.w, old, v); break; case 4: r = binop(Op::Or, I.w, old, v); break; case 5: r = binop(Op::Xor, I.w, old, v); break; default: inconclusive("atomicrmw kind"); }
                storeV(o, off, I.w, r); if (I.dstn) regs[base + I.dst] = old; break; }
            case Op::CmpXchg: {
                u64 ad = ptr(get(I.o[0], base), "cmpxchg"); if (preempted(ad, F)) break; unsigned n = I.w / 8; atomicNow = true; Obj* o = resolve(ad, n, true, "cmpxchg"); atomicNow = false; u64 off = ad & 0xffffffffu; Val old = loadV(o, off, I.w); Val eq = icmp(0, I.w, old, get(I.o[1], base)); bool t = eq.e ? decide(eq.e, "cmpxchg") : eq.c != 0; atomicLoaded(ad, t ? I.ord : I.ord2); if (t) { atomicStored(ad, I.ord, true); storeV(o, off, I.w, get(I.o[2], base)); } regs[base + I.dst] = old; Val ok; ok.c = t; regs[base + I.dst + 1] = ok; break; }
            case Op::Fence: fence(I.ord); break;
            case Op::Gep: {
                Val a = get(I.o[0], base);
                if (I.scaled.empty()) { if (!a.e) { a.c = (u64)((u64)a.c + I.imm); regs[base + I.dst] = a; } else regs[base + I.dst] = mk(P.bin(X::Add, a.e, P.k(64, I.imm))); break; }
                Val r = a; Val im; im.c = I.imm; r = binop(Op::Add, 64, r, im);
                for (auto& s : I.scaled) { Val ix = get(I.o[s.first], base); unsigned w = I.o[s.first].ty->width(); if (w < 64) { if (!ix.e) ix.c = (u64)Pool::sx(ix.c, w); else ix = mk(P.sext(ix.e, 64)); } Val sc; sc.c = s.second; r = binop(Op::Add, 64, r, binop(Op::Mul, 64, ix, sc)); }
                regs[base + I.dst] = r; break; }
            case Op::ICmp: regs[base + I.dst] = icmp(I.pred, I.w2, get(I.o[0], base), get(I.o[1], base)); break;
            case Op::Select: {
                Val c = get(I.o[0], base);
                if (!c.e) { unsigned k = (c.c & 1) ? 1 : 2; Val t[64]; unsigned n = I.dstn; if (n > 64) inconclusive("wide select"); for (unsigned j = 0; j < n; j++) t[j] = get(I.o[k], base, j); for (unsigned j = 0; j < n; j++) regs[base + I.dst + j] = t[j]; }
                else {
                    bool isPtr = I.ty->k == Type::Ptr;
                    if (isPtr) { bool t = decide(c.e, "select of pointers"); regs[base + I.dst] = get(I.o[t ? 1 : 2], base); }
                    else for (unsigned j = 0; j < I.dstn; j++) { unsigned w = I.leaves[j].width; Val a = get(I.o[1], base, j), b = get(I.o[2], base, j); regs[base + I.dst + j] = mk(P.ite(c.e, ex(a, w), ex(b, w))); }
                }
                break; }
            case Op::Extract: { Val t[64]; if (I.dstn > 64) inconclusive("wide extract"); for (unsigned j = 0; j < I.dstn; j++) t[j] = get(I.o[0], base, I.imm + j); for (unsigned j = 0; j < I.dstn; j++) regs[base + I.dst + j] = t[j]; break; }
            case Op::Insert: { std::vector<Val> t(I.dstn); unsigned vn = I.o[1].n; for (unsigned j = 0; j < I.dstn; j++) if (j >= I.imm && j < I.imm + vn) t[j] = get(I.o[1], base, j - I.imm); else if (!(I.o[0].isConst && I.o[0].cv[j].undef)) t[j] = get(I.o[0], base, j); for (unsigned j = 0; j < I.dstn; j++) regs[base + I.dst + j] = t[j]; break; }
            case Op::Trunc: { Val a = get(I.o[0], base); if (!a.e) { a.c &= maskw(I.w); regs[base + I.dst] = a; } else regs[base + I.dst] = mk(P.extract(a.e, 0, I.w)); break; }
            case Op::ZExt: { Val a = get(I.o[0], base); regs[base + I.dst] = a.e ? mk(P.zext(a.e, I.w)) : a; break; }
            case Op::SExt: { Val a = get(I.o[0], base); if (!a.e) { a.c = (u128)Pool::sx(a.c, I.w2) & maskw(I.w); regs[base + I.dst] = a; } else regs[base + I.dst] = mk(P.sext(a.e, I.w)); break; }
            case Op::Copy: regs[base + I.dst] = get(I.o[0], base); break;
            case Op::Freeze: for (unsigned j = 0; j < I.dstn; j++) { Val a = get(I.o[0], base, j); if (a.e && a.e->taint) { Val v; v.e = newVar(I.leaves[j].width, false); a = v; } regs[base + I.dst + j] = a; } break;
            case Op::Add: case Op::Sub: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::Shl: case Op::LShr: case Op::AShr: case Op::And: case Op::Or: case Op::Xor:
                regs[base + I.dst] = binop(I.op, I.w, get(I.o[0], base), get(I.o[1], base)); break;
            case Op::Unsupported: inconclusive("unsupported instruction: " + I.text);
            default: inconclusive("instruction not modelled: " + I.text);
            }
        }
    }

    void path(Work& w) {
        maybeRecycle(); pathNo++;
        trail = std::move(w.prefix); prefixLen = trail.size(); cursor = 0; pc.clear(); setModel(std::move(w.model));
        for (size_t i = M.nextId; i < objs.size(); i++) if (objs.blockGone(i)) i |= 63; else if (!objs.gone(i)) pool.push_back(objs[i]);
        objs.shrink(M.nextId);
        for (u32 i : dirty) { delete objs[i]; objs[i] = nullptr; }
        dirty.clear(); nvars = 0; inputs.clear(); outs.clear(); reached.clear(); assertsSeen.clear(); fr.clear(); resetThreads(); shadowed.clear(); liveHeap = 0; instrs = 0;
        int why = 0;
        try { std::vector<Val> none; auto it = M.fn.find(cfg.entry); if (it == M.fn.end()) { fprintf(stderr, "no entry %s\n", cfg.entry.c_str()); exit(3); } enter(it->second, nullptr, none); run(); }
        catch (PathEnd& e) { why = e.why; }
        catch (Err& e) { notes.push_back(std::string("front end: ") + e.what()); why = 3; }
        totInstr += instrs;
        std::lock_guard<std::mutex> l(S.mx);
        if (why == 0) {
            S.paths++; for (u64 r : reached) S.reach[r]++; for (u64 a : assertsSeen) S.assertIds[a]++;
            S.maxDepth = std::max<unsigned>(S.maxDepth, trail.size());
            // reservoir of completed paths, for native validation
            S.sampleSeen++; S.rng = S.rng * 6364136223846793005ull + 1442695040888963407ull; size_t slot = S.samples.size() < cfg.samples ? S.samples.size() : (S.rng >> 33) % S.sampleSeen;
            if (slot < cfg.samples) { Sample s; for (size_t i = 0; i < inputs.size(); i++) s.inputs.push_back({inputs[i].first, inputVal(i, model)}); for (auto& o : outs) s.outs.push_back((u64)(o.e ? ev(o.e) : o.c)); if (slot == S.samples.size()) S.samples.push_back(s); else S.samples[slot] = s; }
            if (S.paths >= cfg.maxPaths) { S.stop = true; S.timeout = true; }
        } else if (why == 1) S.infeasible++;
        else if (why == 3) S.inconclusive++;
        if (unknowns) { S.inconclusive += unknowns; unknowns = 0; }
        for (auto& n : notes) S.notes.insert(n); notes.clear();
        S.queries += queries; S.qsat += qsat; S.qunsat += qunsat; S.qunk += qunk; S.instrs += totInstr; S.decisions += decisions; S.assertQueries += assertQ; S.solver += stime;
        queries = qsat = qunsat = qunk = totInstr = decisions = assertQ = 0; stime = 0;
    }
    void loop() {
        for (;;) {
            Work w;
            if (!local.empty()) { w = std::move(local.back()); local.pop_back(); }
            else {
                std::unique_lock<std::mutex> l(S.mx);
                S.idle++; S.waiting++;
                if (S.idle == cfg.threads && S.q.empty()) { S.stop = true; S.cv.notify_all(); }
                S.cv.wait(l, [&] { return S.stop || !S.q.empty(); });
                S.waiting--;
                if (S.q.empty() || (S.stop && S.timeout) || S.viol.size() >= cfg.maxViol) { S.stop = true; S.cv.notify_all(); break; }
                S.idle--; w = std::move(S.q.front()); S.q.pop_front();
            }
            path(w);
            if (S.waiting > 0 && local.size() > 1) { std::lock_guard<std::mutex> l(S.mx); size_t give = std::max<size_t>(1, local.size() / 2); if (give > 8) give = 8; for (size_t i = 0; i < give; i++) { S.q.push_back(std::move(local[i])); } local.erase(local.begin(), local.begin() + give); S.cv.notify_all(); }
            if (since(S.t0) > cfg.time) { std::lock_guard<std::mutex> l(S.mx); if (!local.empty() || !S.q.empty()) S.timeout = true; if (S.timeout) { S.stop = true; S.cv.notify_all(); } }
            if (S.stop && (S.timeout || S.viol.size() >= cfg.maxViol)) break;
        }
        std::lock_guard<std::mutex> l(S.mx);
        if (!local.empty()) S.timeout = S.timeout || S.viol.size() < cfg.maxViol;
        for (size_t i = 0; i < cov.size(); i++) if (!cov[i].empty()) { if (S.cov.size() <= i) S.cov.resize(i + 1); if (S.cov[i].empty()) S.cov[i].assign(cov[i].size(), 0); for (size_t j = 0; j < cov[i].size(); j++) S.cov[i][j] |= cov[i][j]; }
    }
};

static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
static u128 undec(const std::string& s) { u128 v = 0; for (char c : s) if (isdigit((unsigned char)c)) v = v * 10 + (c - '0'); return v; }

// job line: entry;p0,p1,...;time[;fixed inputs[;pinned inputs]]
static std::string runJob() {
    Shared S; S.rng = cfg.seed * 2654435761u + 1; S.q.push_back(Work());
    std::vector<std::unique_ptr<Worker>> ws; for (unsigned i = 0; i < cfg.threads; i++) ws.push_back(std::make_unique<Worker>(S));
    S.t0 = Clk::now();
    std::vector<std::thread> ts; for (auto& w : ws) ts.emplace_back([&w] { w->loop(); });
    for (auto& t : ts) t.join();
    double wall = since(S.t0);
    std::string o = "{\"entry\":" + jstr(cfg.entry) + ",\"params\":[";
    for (size_t i = 0; i < cfg.params.size(); i++) o += (i ? "," : "") + std::to_string(cfg.params[i]);
    auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, ",\"%s\":%.6g", k, v); o += b; };
    auto ull = [&](const char* k, u64 v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
    o += "],\"complete\":"; o += (!S.timeout && S.inconclusive == 0 && S.viol.empty()) ? "true" : "false";
    o += ",\"timeout\":"; o += S.timeout ? "true" : "false";
    ull("paths", S.paths); ull("infeasible", S.infeasible); ull("inconclusive", S.inconclusive); ull("queries", S.queries); ull("sat", S.qsat); ull("unsat", S.qunsat); ull("unknown", S.qunk);
    ull("instructions", S.instrs); ull("decisions", S.decisions); ull("assert_queries", S.assertQueries); ull("max_depth", S.maxDepth); num("solver_s", S.solver); num("wall_s", wall);
    auto mapj = [&](const char* k, std::map<u64, u64>& m) { o += std::string(",\"") + k + "\":{"; bool f = true; for (auto& x : m) { o += (f ? "\"" : ",\"") + std::to_string(x.first) + "\":" + std::to_string(x.second); f = false; } o += "}"; };
    mapj("reach", S.reach); mapj("asserts", S.assertIds);
    o += ",\"notes\":["; { bool f = true; for (auto& n : S.notes) { o += (f ? "" : ",") + jstr(n); f = false; } } o += "]";
    auto inj = [&](const std::vector<std::pair<unsigned, u128>>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? ",[" : "[") + std::to_string(v[i].first) + ",\"" + dec(v[i].second) + "\"]"; return r + "]"; };
    o += ",\"violations\":["; for (size_t i = 0; i < S.viol.size(); i++) { auto& v = S.viol[i]; o += (i ? ",{" : "{"); o += "\"kind\":" + jstr(v.kind) + ",\"id\":" + std::to_string(v.id) + ",\"msg\":" + jstr(v.msg) + ",\"inputs\":" + inj(v.inputs) + ",\"stack\":["; for (size_t k = 0; k < v.stack.size(); k++) o += (k ? "," : "") + jstr(v.stack[k]); o += "]}"; } o += "]";
    o += ",\"samples\":["; for (size_t i = 0; i < S.samples.size(); i++) { o += (i ? ",{" : "{"); o += "\"inputs\":" + inj(S.samples[i].inputs) + ",\"outs\":["; for (size_t k = 0; k < S.samples[i].outs.size(); k++) o += (k ? ",\"" : "\"") + std::to_string(S.samples[i].outs[k]) + "\""; o += "]}"; } o += "]";
    o += ",\"functions\":["; bool f = true; for (size_t i = 0; i < S.cov.size(); i++) if (!S.cov[i].empty() && fnOf[i]) { unsigned c = 0; for (u8 b : S.cov[i]) c += b; o += (f ? "[" : ",[") + jstr(fnOf[i]->name) + "," + std::to_string(c) + "," + std::to_string(S.cov[i].size()) + "," + std::to_string(fnOf[i]->ninstr) + "]"; f = false; } o += "]}";
    return o;
}

int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: lirsym FILE.ll [--threads N] [--max-instr N] [--samples N] [--seed N] then job lines on stdin: entry;p0,p1;time[;fixed inputs[;pinned inputs, _ symbolic]]\n"); return 2; }
    try { M.load(argv[1]); } catch (std::exception& e) { fprintf(stderr, "load: %s\n", e.what()); return 3; }
    u64 par = 1, memMb = 12000; double deadline = 1e9;
    for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i]; u64 v = strtoull(argv[i + 1], 0, 10); if (a == "--threads") cfg.threads = v; else if (a == "--max-instr") cfg.maxInstr = v; else if (a == "--samples") cfg.samples = v; else if (a == "--seed") cfg.seed = v; else if (a == "--max-viol") cfg.maxViol = v; else if (a == "--solver-ms") cfg.solverMs = v; else if (a == "--max-paths") cfg.maxPaths = v; else if (a == "--jobs") par = v; else if (a == "--mem-mb") memMb = v; else if (a == "--deadline") deadline = v; }
    fnOf.assign(M.nextId, nullptr); glOf.assign(M.nextId, nullptr);
    for (auto* f : M.fnById) { fnOf[f->id] = f; classify(f); } for (auto* g : M.glById) glOf[g->id] = g;
    // Every job runs in a process of its own (all it allocates goes with it), up to `par` at a time; a result line starts with the job's number.
    Cfg base = cfg; struct Kid { pid_t pid; int fd; unsigned n; std::string job, out; }; std::vector<Kid> kids; unsigned seq = 0; bool eof = false; std::string inbuf; auto t0 = Clk::now();
    std::vector<std::string> backlog; size_t next = 0;
    auto split = [](const std::string& x, char c) { std::vector<std::string> r; size_t a = 0; if (x.empty()) return r; for (;;) { size_t b = x.find(c, a); r.push_back(x.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; } return r; };
    for (;;) {
        while (next < backlog.size() && kids.size() < par) {
            std::string s = backlog[next++]; unsigned n = seq++; auto p = split(s, ';'); cfg = base; cfg.entry = p[0];
            if (p.size() > 1) for (auto& q : split(p[1], ',')) cfg.params.push_back(strtoull(q.c_str(), 0, 10));
            if (p.size() > 2 && !p[2].empty()) cfg.time = atof(p[2].c_str());
            if (p.size() > 3 && !p[3].empty()) { cfg.concrete = true; cfg.threads = 1; for (auto& q : split(p[3], ',')) cfg.fixed.push_back(undec(q)); }
            if (p.size() > 4) for (auto& q : split(p[4], ',')) cfg.pin.push_back({q != "_", undec(q)});
            if (p.size() > 5 && !p[5].empty()) cfg.maxInstr = strtoull(p[5].c_str(), 0, 10);
            double rem = deadline - since(t0); if (rem < 2) { printf("%u {\"skipped\":true}\n", n); fflush(stdout); continue; }
            cfg.time = std::min(cfg.time, rem);
            int fd[2]; if (pipe(fd)) { perror("pipe"); return 3; }
            fflush(stdout); pid_t k = fork(); if (k < 0) { perror("fork"); return 3; }
            if (!k) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); rlimit rl{memMb << 20, memMb << 20}; setrlimit(RLIMIT_AS, &rl);
                std::string r = runJob(); std::string ids; for (auto* f : fnOf) if (f && f->parsed) ids += std::to_string(f->id) + ","; r = ids + "\n" + r + "\n";
                for (size_t o = 0; o < r.size();) { ssize_t w = write(fd[1], r.data() + o, r.size() - o); if (w <= 0) _exit(3); o += w; } _exit(0);
            }
            close(fd[1]); fcntl(fd[0], F_SETFD, FD_CLOEXEC); kids.push_back({k, fd[0], n, s, ""});
        }
        if (eof && kids.empty() && next == backlog.size()) break;
        std::vector<pollfd> pf; if (!eof) pf.push_back({0, POLLIN, 0}); for (auto& k : kids) pf.push_back({k.fd, POLLIN, 0});
        if (poll(pf.data(), pf.size(), -1) < 0) { if (errno == EINTR) continue; perror("poll"); return 3; }
        size_t at = 0; char b[65536];
        if (!eof) { if (pf[at].revents) { ssize_t r = read(0, b, sizeof b); if (r <= 0) eof = true; else { inbuf.append(b, r); for (size_t nl; (nl = inbuf.find('\n')) != std::string::npos;) { std::string l = inbuf.substr(0, nl); inbuf.erase(0, nl + 1); if (!l.empty()) backlog.push_back(l); } } } at++; }
        for (size_t i = 0; i < kids.size(); at++) {
            Kid& k = kids[i]; if (!pf[at].revents) { i++; continue; }
            ssize_t r = read(k.fd, b, sizeof b); if (r > 0) { k.out.append(b, r); i++; continue; }
            close(k.fd); int st = 0; waitpid(k.pid, &st, 0);
            size_t nl = k.out.find('\n');
            if (st == 0 && nl != std::string::npos) { for (auto& q : split(k.out.substr(0, nl), ',')) if (!q.empty()) M.ensure(fnOf[strtoul(q.c_str(), 0, 10)]); printf("%u %s", k.n, k.out.c_str() + nl + 1); }
            else printf("%u {\"died\":\"%s %d\"}\n", k.n, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            fflush(stdout); kids.erase(kids.begin() + i);
        }
    }
    return 0;
}
