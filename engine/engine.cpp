// fsx: a forking symbolic executor for LLVM IR on top of Z3.
// Every value that depends on a symbolic input is a bit-vector term; every branch, every
// address and every assertion that depends on one is decided by an SMT query under the path
// condition.  Heap, stack and global blocks are separate objects, each bounds-, lifetime- and
// initialisation-checked; bytes never written are unconstrained symbols.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static std::string optEntry = "harness", optOut, optModule;
static std::map<std::string, long> optParams;
static int optJobs = 8;
static double optTime = 300;
static uint64_t optMaxSteps = 200000000ULL;
static int optMaxViol = 1;
static int optTests = 200;
static uint64_t optSeed = 1;
static unsigned optQueryMs = 60000;
static bool optVerbose = false;

// ---------------------------------------------------------------- refcounted COW blocks
template <class T> struct Ref {
    T *p = nullptr;
    Ref() {}
    explicit Ref(T *q) : p(q) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    ~Ref() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
    Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; }
    Ref &operator=(Ref &&o) noexcept { if (this != &o) { rel(); p = o.p; o.p = nullptr; } return *this; }
    T *operator->() const { return p; }
    explicit operator bool() const { return p; }
};

struct Cell { E e; uint8_t idx; };
static const unsigned PS = 256;
struct Page {
    int rc = 0;
    uint8_t data[PS];
    uint8_t st[PS]; // 0 uninitialised, 1 concrete, 2 symbolic
    Cell *cells = nullptr;
    Page() { memset(st, 0, PS); memset(data, 0, PS); }
    Page(const Page &o) { memcpy(data, o.data, PS); memcpy(st, o.st, PS); if (o.cells) { cells = new Cell[PS]; memcpy((void *)cells, o.cells, sizeof(Cell) * PS); } }
    ~Page() { delete[] cells; }
};
enum Kind : uint8_t { K_MALLOC, K_NEW, K_NEWARR, K_STACK, K_GLOBAL, K_CONST, K_EXC };
static const char *kindName[] = {"malloc", "new", "new[]", "stack", "global", "const", "exception"};
struct Object {
    int rc = 0;
    uint64_t size = 0;
    Kind kind = K_MALLOC;
    bool freed = false;
    E ssize = nullptr;          // symbolic size (word-array object)
    const AList *al = nullptr;
    std::vector<Ref<Page>> pages;
    std::map<uint64_t, Ref<Page>> sparse; // blocks over 16 MiB
    bool huge = false;
    uint64_t aseq = 0;          // allocation number (heap blocks)
    uint32_t alias = 0;         // continuation of a block that spans several address slots
    Page *page(uint64_t i) const { if (!huge) return pages[i].p; auto it = sparse.find(i); return it == sparse.end() ? nullptr : it->second.p; }
    const char *name = "";
};

struct V { uint64_t c = 0; E e = nullptr; };
static inline V vc(uint64_t c) { V v; v.c = c; return v; }
static inline V ve(E e) { V v; if (isC(e)) v.c = e->c; else v.e = e; return v; }

// ---------------------------------------------------------------- decoded program
struct Opnd { int32_t reg = -1; bool undef = false; uint64_t c = 0; uint8_t w = 64; };
enum IOp : uint8_t { I_BIN, I_ICMP, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV,
                     I_LANDING, I_RESUME, I_UNREACH, I_AGGMOV, I_FREEZE, I_UNSUP };
struct Edge { int target; std::vector<std::pair<int, Opnd>> moves; };
struct GepIdx { Opnd o; uint64_t scale; };
struct Func;
struct Ins {
    IOp op; uint8_t w = 0, w2 = 0; uint8_t sub = 0;
    int dst = -1; int nslots = 0;
    Opnd a, b, c;
    int e1 = -1, e2 = -1;       // edges
    std::vector<GepIdx> gep; uint64_t goff = 0;
    std::vector<Opnd> args;     // call args / ret slots / aggregate sources
    std::vector<uint8_t> slotw;
    std::vector<uint64_t> slotoff;
    std::vector<std::pair<uint64_t, int>> cases;
    Func *callee = nullptr; int builtin = -1; bool indirect = false; bool invoke = false;
    std::vector<uint64_t> byval; // per arg, size or 0
    const Instruction *li = nullptr;
};
struct Func {
    const Function *f; std::string name, demangled;
    bool decoded = false;
    std::vector<Ins> code;
    std::vector<Edge> edges;
    int nregs = 0; int nargslots = 0;
    uint64_t addr = 0;
    uint64_t execd = 0;
    bool isRepo = false;
};

struct Stale { uint64_t aseq, off; uint32_t sym; uint8_t bytes; };
struct Frame { Func *f; int pc; std::vector<V> regs; std::vector<uint32_t> allocas; };
struct State {
    std::vector<Frame> st;
    std::vector<Ref<Object>> objs;
    std::vector<Ref<Object>> big;
    std::vector<E> pc;
    Model model;
    std::vector<uint64_t> bound;
    std::vector<uint32_t> inputs;
    std::vector<Stale> stale;  // heap bytes read before they were written
    uint64_t allocSeq = 0;
    std::map<std::string, int> occ;
    std::vector<std::pair<const char *, V>> obs;
    std::set<std::string> labels;
    uint64_t steps = 0;
    int64_t failAlloc = -1;
    bool failAll = false, thread2 = false;
    std::vector<Ref<Object>> tls;  // thread-local objects of the thread that is not running
    std::vector<std::pair<uint64_t, bool>> locks; // held mutexes and initialisations in progress, and by which thread
    std::vector<Frame> st2;        // calls of the thread that is not running
    uint64_t excPtr2 = 0, excTi2 = 0;
    std::vector<uint64_t> caught2;
    uint64_t heapLive = 0, heapEvents = 0, heapBytes = 0, heapPeak = 0;
    uint64_t excPtr = 0, excTi = 0;
    std::vector<uint64_t> caught;
    unsigned iteMax = 0;
    uint32_t uninitSeq = 0;
    uint64_t watchLo = 0, watchHi = 0; // reads/writes inside this range are reported
    bool isBound(uint32_t s) const { return s / 64 < bound.size() && (bound[s / 64] >> (s % 64) & 1); }
    void setBound(uint32_t s) { if (bound.size() <= s / 64) bound.resize(s / 64 + 1, 0); bound[s / 64] |= 1ULL << (s % 64); }
};

// ---------------------------------------------------------------- statistics / results
struct Stats { uint64_t paths = 0, killed = 0, forks = 0, steps = 0, queries = 0, qsat = 0, qunsat = 0, qunknown = 0, concr = 0, asserts = 0, assertQueries = 0, maxpc = 0, exhausted = 1; double solver = 0; };
static Stats S;
static std::set<std::string> gLabels;
static std::map<std::string, uint64_t> gNotes;
struct Viol { std::string kind, msg, where, trace, inputs, obs, stale; };
static std::vector<Viol> gViol;
static std::vector<std::string> gTests;
static uint64_t gTestSeen = 0;
static uint64_t rngState = 88172645463325252ULL;
static uint64_t rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static double tEnd;
struct Shared { volatile long next; volatile int stop; };
static Shared *shm;

// ---------------------------------------------------------------- globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, Func *> funcs;
static std::vector<Func *> funcByAddr;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::vector<uint32_t> gTls;                 // ids of thread-local objects
static std::vector<Ref<Object>> gTlsInit;
static const uint64_t OBJ_OFF = 0x40000000ULL;
static const uint64_t FUNC_BASE = 0x0070000000000000ULL;
static const uint64_t BIG_SHIFT = 60;
static inline uint64_t objBase(uint32_t id) { return ((uint64_t)id << 32) | OBJ_OFF; }
static std::vector<State *> work;
static State *cur;

// ---------------------------------------------------------------- solver
static Z3_solver slv;
static std::vector<E> slvStack;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void slvSync(State &s)
{
    size_t k = 0;
    while (k < slvStack.size() && k < s.pc.size() && slvStack[k] == s.pc[k]) k++;
    if (slvStack.size() > k) { Z3_solver_pop(g_z3, slv, slvStack.size() - k); slvStack.resize(k); }
    while (slvStack.size() < s.pc.size()) {
        Z3_solver_push(g_z3, slv);
        Z3_solver_assert(g_z3, slv, toZ3(s.pc[slvStack.size()]));
        slvStack.push_back(s.pc[slvStack.size()]);
    }
}
static std::vector<E> gAReads;
static void readModel(Model &m)
{
    Z3_model zm = Z3_solver_get_model(g_z3, slv);
    Z3_model_inc_ref(g_z3, zm);
    unsigned n = Z3_model_get_num_consts(g_z3, zm);
    m.v.assign(g_syms.size(), 0);
    m.arr.clear();
    for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(g_z3, zm, i);
        const char *nm = Z3_get_symbol_string(g_z3, Z3_get_decl_name(g_z3, d));
        if (nm[0] != 's') continue;
        char *end; unsigned long id = strtoul(nm + 1, &end, 10);
        if (*end || id >= m.v.size()) continue;
        Z3_ast v = Z3_model_get_const_interp(g_z3, zm, d);
        if (!v) continue;
        uint64_t x = 0;
        if (g_syms[id].w == 1) x = Z3_get_bool_value(g_z3, v) == Z3_L_TRUE;
        else if (!Z3_get_numeral_uint64(g_z3, v, &x)) x = 0;
        m.v[id] = x;
    }
    if (g_arrays) {
        for (E e : gAReads) {
            Z3_ast iv, vv; uint64_t i, v;
            if (Z3_model_eval(g_z3, zm, toZ3(e->a), true, &iv) && Z3_get_numeral_uint64(g_z3, iv, &i) &&
                Z3_model_eval(g_z3, zm, toZ3(e), true, &vv) && Z3_get_numeral_uint64(g_z3, vv, &v))
                m.arr[arrKey(e->al->arr, i)] = v;
        }
    }
    Z3_model_dec_ref(g_z3, zm);
}
static std::unordered_map<E, char> seenAR;
static std::unordered_map<E, char> arVisited;
static void collectAReads(E e)
{
    if (!g_arrays || !e || arVisited.count(e)) return;
    arVisited[e] = 1;
    if (e->op == AREAD && !seenAR.count(e)) { seenAR[e] = 1; gAReads.push_back(e); }
    collectAReads(e->a); collectAReads(e->b); collectAReads(e->d);
}
// 1 sat, 0 unsat, -1 unknown
static int query(State &s, E cond, Model *out)
{
    if (isC(cond)) {
        if (!cond->c) return 0;
        if (out) *out = s.model;
        return 1;
    }
    double t0 = now();
    collectAReads(cond);
    slvSync(s);
    Z3_solver_push(g_z3, slv);
    Z3_solver_assert(g_z3, slv, toZ3(cond));
    Z3_lbool r = Z3_solver_check(g_z3, slv);
    S.queries++;
    if (r == Z3_L_TRUE) { S.qsat++; if (out) readModel(*out); }
    else if (r == Z3_L_FALSE) S.qunsat++;
    else S.qunknown++;
    Z3_solver_pop(g_z3, slv, 1);
    S.solver += now() - t0;
    if (optVerbose && now() - t0 > 1) fprintf(stderr, "slow query %.2fs r=%d %s\n", now() - t0, r, showE(cond, 6).c_str());
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}

struct Inconclusive { std::string why; };
[[noreturn]] static void inconclusive(const std::string &w);

static void noteEq(State &s, E e)
{ // bind symbols fixed by the constraint
    if (e->op == AND && e->w == 1) { noteEq(s, e->a); noteEq(s, e->b); return; }
    if (e->op == EQ && e->a->op == SYM && isC(e->b)) s.setBound(e->a->c);
    if (e->op == SYM && e->w == 1) s.setBound(e->c);
    if (e->op == XOR && e->w == 1 && e->a->op == SYM && isC(e->b)) s.setBound(e->a->c);
}
static void addPc(State &s, E c) { if (isC(c)) return; s.pc.push_back(c); collectAReads(c); noteEq(s, c); if (s.pc.size() > S.maxpc) S.maxpc = s.pc.size(); }
static bool allBound(State &s, E e)
{
    for (uint32_t id : e->sup->ids) if (!s.isBound(id)) return false;
    return e->op != AREAD || e->sup->ids.size() == 0 ? !g_arrays : !g_arrays;
}
static V norm(State &s, V v)
{ // collapse terms over bound symbols to constants
    if (v.e && allBound(s, v.e)) return vc(evalE(v.e, s.model));
    return v;
}

// ---------------------------------------------------------------- reporting
static std::string locOf(const Instruction *i)
{
    std::string r = demangle(i->getFunction()->getName().str());
    if (DebugLoc d = i->getDebugLoc()) { r += " " + d->getFilename().str() + ":" + std::to_string(d.getLine()); }
    return r;
}
static std::string inputsOf(State &s, const Model &m)
{
    std::string r;
    char b[64];
    for (uint32_t id : s.inputs) {
        snprintf(b, sizeof b, "=%llx", (unsigned long long)(m.get(id) & maskw(g_syms[id].w)));
        r += (r.empty() ? "" : ";") + g_syms[id].name + b;
    }
    return r;
}
static std::string staleOf(State &s, const Model &m)
{
    std::string r; char b[64];
    for (auto &t : s.stale) {
        snprintf(b, sizeof b, "%llu:%llu=", (unsigned long long)t.aseq, (unsigned long long)t.off); r += b;
        uint64_t v = m.get(t.sym);
        for (int i = 0; i < t.bytes; i++) { snprintf(b, sizeof b, "%02x", (unsigned)(v >> (8 * i) & 255)); r += b; }
        r += ";";
    }
    return r;
}
static void recordViol(State &s, const std::string &kind, const std::string &msg, const Model &m)
{
    Viol v; v.kind = kind; v.msg = msg;
    const Frame &f = s.st.back();
    v.where = locOf(f.f->code[f.pc].li);
    for (int i = (int)s.st.size() - 1; i >= 0 && i > (int)s.st.size() - 12; i--)
        v.trace += (v.trace.empty() ? "" : " <- ") + locOf(s.st[i].f->code[s.st[i].pc].li);
    v.inputs = inputsOf(s, m);
    v.stale = staleOf(s, m);
    gViol.push_back(v);
    if ((int)gViol.size() >= optMaxViol) shm->stop = 1;
}
struct PathEnd {};          // current path finished / killed
[[noreturn]] static void violation(State &s, const std::string &kind, const std::string &msg, const Model *m = nullptr)
{
    recordViol(s, kind, msg, m ? *m : s.model);
    S.killed++;
    throw PathEnd();
}
[[noreturn]] static void inconclusive(const std::string &w)
{
    gNotes["INCONCLUSIVE: " + w + (cur && !cur->st.empty() ? " at " + locOf(cur->st.back().f->code[cur->st.back().pc].li) : "")]++;
    S.exhausted = 0;
    S.killed++;
    throw PathEnd();
}

// ---------------------------------------------------------------- forking
static State *cloneState(State &s) { S.forks++; return new State(s); }
struct Retry {};            // re-execute current instruction

static bool decided(State &s, E c, bool &v)
{
    if (isC(c)) { v = c->c; return true; }
    E n = mkNot(c);
    for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) { v = true; return true; } if (s.pc[i] == n) { v = false; return true; } }
    if (allBound(s, c)) { v = evalE(c, s.model); return true; }
    return false;
}
// decide a condition for the current state; if both sides are possible the other side is
// queued (it re-executes the current instruction under the negated condition)
static bool overWide(E c)
{ // about a size or an index, not about text bytes
    for (uint32_t id : c->sup->ids) if (g_syms[id].w >= 32) return true;
    return false;
}
static bool decide(State &s, E c)
{
    bool v;
    if (decided(s, c, v)) return v;
    v = evalE(c, s.model);
    E same = v ? c : mkNot(c), other = v ? mkNot(c) : c;
    Model m;
    int r = query(s, other, &m);
    if (r < 0) inconclusive("solver timeout on branch");
    if (r == 1) {
        State *o = cloneState(s);
        addPc(*o, other);
        o->model = std::move(m);
        work.push_back(o);
        addPc(s, same);
    }
    else addPc(s, same); // implied; kept so that later decisions find it
    return v;
}
// fork over all feasible values of e (complete enumeration by the solver); returns value for current state
static uint64_t enumerate(State &s, E e)
{
    if (isC(e)) return e->c;
    if (allBound(s, e)) return evalE(e, s.model);
    uint64_t v0 = evalE(e, s.model);
    // enumerate the other values
    std::vector<std::pair<uint64_t, Model>> others;
    double t0 = now();
    collectAReads(e);
    slvSync(s);
    Z3_solver_push(g_z3, slv);
    E ne = mkNot(mkBin(EQ, e, mkC(e->w, v0)));
    bool go = !isC(ne) || ne->c;
    if (go && !isC(ne)) Z3_solver_assert(g_z3, slv, toZ3(ne));
    while (go) {
        Z3_lbool r = Z3_solver_check(g_z3, slv);
        S.queries++;
        if (r == Z3_L_FALSE) { S.qunsat++; break; }
        if (r == Z3_L_UNDEF) { S.qunknown++; Z3_solver_pop(g_z3, slv, 1); inconclusive("solver timeout enumerating values"); }
        S.qsat++;
        Model m; readModel(m);
        uint64_t v = evalE(e, m);
        others.emplace_back(v, std::move(m));
        if (now() > tEnd) { Z3_solver_pop(g_z3, slv, 1); inconclusive("time budget ended enumerating values of " + showE(e)); }
        if (others.size() > 70000) { Z3_solver_pop(g_z3, slv, 1); inconclusive("more than 70000 values for " + showE(e)); }
        Z3_solver_assert(g_z3, slv, toZ3(mkNot(mkBin(EQ, e, mkC(e->w, v)))));
    }
    Z3_solver_pop(g_z3, slv, 1);
    S.solver += now() - t0;
    S.concr++;
    for (auto &p : others) {
        State *o = cloneState(s);
        addPc(*o, mkBin(EQ, e, mkC(e->w, p.first)));
        o->model = std::move(p.second);
        work.push_back(o);
    }
    addPc(s, mkBin(EQ, e, mkC(e->w, v0)));
    if (e->op == SYM) s.setBound(e->c);
    return v0;
}

// ---------------------------------------------------------------- memory
static uint32_t newObj(State &s, uint64_t size, Kind k, const char *name)
{
    Kind k_ = k;
    Object *o = new Object;
    o->size = size; o->kind = k; o->name = name;
    if (size > (1ULL << 24)) o->huge = true; else o->pages.resize((size + PS - 1) / PS);
    s.objs.emplace_back(o);
    uint32_t id = s.objs.size() - 1;
    if (size >= 0x80000000ULL)
        for (uint64_t k = ((OBJ_OFF + size + 0x40000000ULL) >> 32); k-- > 0;) { Object *a = new Object; a->alias = id; a->kind = k_; a->name = name; s.objs.emplace_back(a); }
    if (k <= K_NEWARR) { s.heapLive++; s.heapEvents++; s.heapBytes += size; if (s.heapBytes > s.heapPeak) s.heapPeak = s.heapBytes; }
    return id;
}
static Object *wobj(State &s, uint32_t id)
{
    Ref<Object> &r = s.objs[id];
    if (r->rc > 1) r = Ref<Object>(new Object(*r.p)), r.p->rc = 1;
    return r.p;
}
static Page *wpage(Object *o, uint64_t i)
{
    Ref<Page> &r = o->huge ? o->sparse[i] : o->pages[i];
    if (!r) r = Ref<Page>(new Page());
    else if (r->rc > 1) { Page *n = new Page(*r.p); r = Ref<Page>(n); }
    return r.p;
}
static E freshUninit(State &s, unsigned w, uint32_t oid, uint64_t off);
static std::unordered_map<std::string, E> symIntern;
static E internSym(unsigned w, const std::string &name, bool input)
{
    auto it = symIntern.find(name);
    if (it != symIntern.end() && it->second->w == w) return it->second;
    E e = mkSym(w, name, input);
    symIntern[name] = e;
    return e;
}
static E freshUninit(State &s, unsigned w, uint32_t oid, uint64_t off)
{
    char b[64]; snprintf(b, sizeof b, "uninit%u_%u_%llu", w, oid, (unsigned long long)off);
    E e = internSym(w, b, false);
    if (s.objs[oid].p->aseq && s.stale.size() < 4096) s.stale.push_back({s.objs[oid].p->aseq, off, (uint32_t)e->c, (uint8_t)(w / 8)});
    return e;
}
static E freshAny(State &s, unsigned w, const char *why)
{
    char b[64]; snprintf(b, sizeof b, "any_%s_%u_%u", why, w, s.uninitSeq++);
    return internSym(w, b, false);
}

static void storeC(State &s, uint32_t oid, uint64_t off, unsigned n, uint64_t v)
{
    Object *o = wobj(s, oid);
    while (n) {
        Page *p = wpage(o, off / PS);
        unsigned k = off % PS, m = std::min<unsigned>(n, PS - k);
        memcpy(p->data + k, &v, m);
        memset(p->st + k, 1, m);
        if (m < 8) v >>= 8 * m; else v = 0;
        off += m; n -= m;
    }
}
static void storeE(State &s, uint32_t oid, uint64_t off, unsigned n, E e)
{
    if (isC(e)) { storeC(s, oid, off, n, e->c); return; }
    if (e->w < n * 8) e = mkZext(e, n * 8);
    if (isC(e)) { storeC(s, oid, off, n, e->c); return; }
    Object *o = wobj(s, oid);
    for (unsigned i = 0; i < n; i++) {
        Page *p = wpage(o, (off + i) / PS);
        unsigned k = (off + i) % PS;
        if (!p->cells) { p->cells = new Cell[PS]; }
        p->cells[k] = Cell{e, (uint8_t)i};
        p->st[k] = 2;
    }
}
static V loadV(State &s, uint32_t oid, uint64_t off, unsigned n)
{
    Object *o = s.objs[oid].p;
    // fast path: all concrete
    if (off % PS + n <= PS) {
        Page *p = o->page(off / PS);
        if (p) {
            unsigned k = off % PS;
            bool ok = true;
            for (unsigned i = 0; i < n; i++) if (p->st[k + i] != 1) { ok = false; break; }
            if (ok) { uint64_t v = 0; memcpy(&v, p->data + k, n); return vc(v); }
        }
    }
    // uninitialised bytes become unconstrained symbols
    bool anyInit = false;
    for (unsigned i = 0; i < n; i++) { Page *p = o->page((off + i) / PS); if (p && p->st[(off + i) % PS]) anyInit = true; }
    if (!anyInit) {
        E e = freshUninit(s, n * 8, oid, off);
        storeE(s, oid, off, n, e);
        return ve(e);
    }
    E r = nullptr;
    unsigned i = 0;
    while (i < n) {
        Page *p = o->page((off + i) / PS);
        unsigned k = (off + i) % PS;
        E part; unsigned len = 1;
        if (!p || p->st[k] == 0) {
            part = freshUninit(s, 8, oid, off + i);
            storeE(s, oid, off + i, 1, part);
            o = s.objs[oid].p;
        } else if (p->st[k] == 1) part = mkC(8, p->data[k]);
        else {
            Cell c = p->cells[k];
            // longest run of consecutive bytes of the same term
            while (i + len < n) {
                Page *q = o->page((off + i + len) / PS); unsigned kk = (off + i + len) % PS;
                if (!q || q->st[kk] != 2 || q->cells[kk].e != c.e || q->cells[kk].idx != c.idx + len) break;
                len++;
            }
            part = mkExtract(c.e, c.idx * 8, len * 8);
        }
        r = r ? mkConcat(part, r) : part;
        i += len;
    }
    return ve(r);
}

enum Acc { RD, WR };
static bool findObj(State &s, uint64_t a, uint64_t n, uint32_t &oid, uint64_t &off)
{
    uint64_t id = a >> 32;
    if (id >= s.objs.size() || !s.objs[id]) return false;
    Object *o = s.objs[id].p;
    if (o->alias) { id = o->alias; o = s.objs[id].p; }
    if (o->freed) return false;
    off = a - objBase(id);
    if (off > o->size || n > o->size - off) return false;
    oid = id;
    return true;
}
static std::string badAccess(State &s, uint64_t a, uint64_t n, Acc k, std::string &kind)
{
    char b[256];
    uint64_t id = a >> 32;
    kind = k == RD ? "invalid-read" : "invalid-write";
    if (a < 0x100000) { kind = "null-deref"; snprintf(b, sizeof b, "%s of %llu bytes at address 0x%llx", k == RD ? "read" : "write", (unsigned long long)n, (unsigned long long)a); return b; }
    if (id < s.objs.size() && s.objs[id]) {
        Object *o = s.objs[id].p;
        if (o->alias) { id = o->alias; o = s.objs[id].p; }
        if (o->freed) kind = "use-after-free"; else kind = k == RD ? "out-of-bounds-read" : "out-of-bounds-write";
        snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of a %llu-byte %s block (%s)%s", k == RD ? "read" : "write", (unsigned long long)n,
                 (long long)(a - objBase(id)), (unsigned long long)o->size, kindName[o->kind], o->name, o->freed ? " already released" : "");
        return b;
    }
    snprintf(b, sizeof b, "%s of %llu bytes at wild address 0x%llx", k == RD ? "read" : "write", (unsigned long long)n, (unsigned long long)a);
    return b;
}
static bool looksPtr(State &s, const V &v) { return !v.e && (v.c >> 32) && (v.c >> 32) < s.objs.size() && (v.c & 0xffffffffULL) >= OBJ_OFF - 0x1000; }

static E unboundByte(State &s, E e)
{
    for (uint32_t id : e->sup->ids)
        if (!s.isBound(id) && g_syms[id].w <= 8) return symIntern[g_syms[id].name];
    return nullptr;
}
struct Loc { uint32_t oid; uint64_t off; E soff; uint64_t lo, hi, stride; bool big; };
// resolve an address; may throw Retry (after narrowing the state) or PathEnd
static bool isBig(State &s, uint64_t a) { uint64_t h = a >> BIG_SHIFT; return h >= 8 && h - 8 < s.big.size(); }
static Loc resolve(State &s, V addr, uint64_t n, Acc k)
{
    Loc L{0, 0, nullptr, 0, 0, 0, false};
    addr = norm(s, addr);
    if (!addr.e) {
        if (isBig(s, addr.c)) { L.big = true; L.oid = (addr.c >> BIG_SHIFT) - 8; L.soff = mkC(64, addr.c & ((1ULL << BIG_SHIFT) - 1)); }
        else {
            if (!findObj(s, addr.c, n, L.oid, L.off)) { std::string kd, m = badAccess(s, addr.c, n, k, kd); violation(s, kd, m); }
            if (k == WR && s.objs[L.oid]->kind == K_CONST) violation(s, "write-to-constant", s.objs[L.oid]->name);
            return L;
        }
    } else {
        uint64_t v = evalE(addr.e, s.model);
        if (isBig(s, v)) {
            L.big = true; L.oid = (v >> BIG_SHIFT) - 8;
            L.soff = mkBin(SUB, addr.e, mkC(64, (v >> BIG_SHIFT) << BIG_SHIFT));
        } else {
            uint32_t oid; uint64_t off;
            if (!findObj(s, v, n, oid, off)) { std::string kd, m = badAccess(s, v, n, k, kd); violation(s, kd, m + " (symbolic address)"); }
            Object *o = s.objs[oid].p;
            E so = mkBin(SUB, addr.e, mkC(64, objBase(oid)));
            E inb = mkBin(ULE, so, mkC(64, o->size - n));
            bool dv;
            if (!(decided(s, inb, dv) && dv)) {
                Model m;
                int r = query(s, mkNot(inb), &m);
                if (r < 0) inconclusive("solver timeout on bounds check");
                if (r == 1) {
                    uint64_t v2 = evalE(addr.e, m); uint32_t oid2; uint64_t off2;
                    if (!findObj(s, v2, n, oid2, off2)) {
                        std::string kd, mm = badAccess(s, v2, n, k, kd);
                        violation(s, kd, mm + " (symbolic address)", &m);
                    }
                    State *ot = cloneState(s); addPc(*ot, mkNot(inb)); ot->model = std::move(m); work.push_back(ot);
                }
                addPc(s, inb);
            }
            if (k == WR && o->kind == K_CONST) violation(s, "write-to-constant", o->name);
            L.oid = oid;
            // candidate offsets
            unsigned tz = 0; uint64_t al = n;
            while (al > 1) { tz++; al >>= 1; }
            bool aligned = (so->kz & maskw(tz)) == maskw(tz) || tz == 0;
            uint64_t lo = so->umin, hi = std::min(so->umax, o->size - n);
            if (s.iteMax && aligned && (n & (n - 1)) == 0) {
                // unique under the path condition?
                E eq = mkBin(EQ, addr.e, mkC(64, v));
                int r = query(s, mkNot(eq), nullptr);
                if (r == 0) { addPc(s, eq); L.off = off; return L; }
                lo = (lo + n - 1) / n * n;
                if ((hi - lo) / n + 1 <= s.iteMax) {
                    bool ptrs = false;
                    if (n == 8) for (uint64_t x = lo; x <= hi && !ptrs; x += n) { V c = loadV(s, oid, x, n); ptrs = looksPtr(s, c); }
                    if (!ptrs) { L.soff = so; L.lo = lo; L.hi = hi; L.stride = n; return L; }
                }
            }
            E sb = unboundByte(s, addr.e);
            enumerate(s, sb ? sb : addr.e);
            if (!sb) { // address now unique: value known
                L.off = evalE(so, s.model);
                return L;
            }
            throw Retry();
        }
    }
    // word-array object of symbolic size
    Object *o = s.big[L.oid].p;
    if (o->freed) violation(s, "use-after-free", "access to released block");
    E inb = mkBin(AND, mkBin(ULE, mkC(64, n), o->ssize), mkBin(ULE, L.soff, mkBin(SUB, o->ssize, mkC(64, n))));
    Model m;
    int r = query(s, mkNot(inb), &m);
    if (r < 0) inconclusive("solver timeout on bounds check");
    if (r == 1) {
        char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of a block of %llu bytes (symbolic size)", k == RD ? "read" : "write", (unsigned long long)n,
                 (long long)evalE(L.soff, m), (unsigned long long)evalE(o->ssize, m));
        violation(s, k == RD ? "out-of-bounds-read" : "out-of-bounds-write", b, &m);
    }
    if (n != 8 || (L.soff->kz & 7) != 7) inconclusive("unaligned access to symbolic-size block");
    return L;
}
static V memLoad(State &s, V addr, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Loc L = resolve(s, addr, n, RD);
    if (s.watchLo && !addr.e && addr.c + n > s.watchLo && addr.c < s.watchHi) violation(s, "forbidden-read", "read of memory the caller must not have read");
    V r;
    if (L.big) r = ve(mkARead(s.big[L.oid]->al, mkBin(LSHR, L.soff, mkC(64, 3))));
    else if (L.soff) {
        E e = nullptr;
        // group equal cells to keep the chain short
        std::vector<std::pair<uint64_t, E>> cells;
        std::unordered_map<E, int> cnt;
        for (uint64_t x = L.lo; x <= L.hi; x += L.stride) { V c = loadV(s, L.oid, x, n); E ce = c.e ? c.e : mkC(n * 8, c.c); cells.push_back({x, ce}); cnt[ce]++; }
        E def = nullptr; int best = 0;
        for (auto &p : cells) if (cnt[p.second] > best) { best = cnt[p.second]; def = p.second; }
        e = def;
        for (auto &p : cells) if (p.second != def) e = mkIte(mkBin(EQ, L.soff, mkC(64, p.first)), p.second, e);
        r = ve(e);
    } else r = loadV(s, L.oid, L.off, n);
    if (w < n * 8 && r.e) r = ve(mkExtract(r.e, 0, w)); else if (!r.e) r.c &= maskw(w);
    return r;
}
static void memStore(State &s, V addr, unsigned w, V val)
{
    unsigned n = (w + 7) / 8;
    Loc L = resolve(s, addr, n, WR);
    if (s.watchLo && !addr.e && addr.c + n > s.watchLo && addr.c < s.watchHi) violation(s, "forbidden-write", "write to memory the caller must not have modified");
    if (L.big) {
        Object *o = s.big[L.oid].p;
        if (o->rc > 1) { o = new Object(*o); s.big[L.oid] = Ref<Object>(o); o->rc = 1; }
        o->al = mkAStore(o->al, mkBin(LSHR, L.soff, mkC(64, 3)), val.e ? val.e : mkC(64, val.c));
    } else if (L.soff) {
        E ve_ = val.e ? (val.e->w < n * 8 ? mkZext(val.e, n * 8) : val.e) : mkC(n * 8, val.c);
        for (uint64_t x = L.lo; x <= L.hi; x += L.stride) {
            V c = loadV(s, L.oid, x, n);
            E ce = c.e ? c.e : mkC(n * 8, c.c);
            E ne = mkIte(mkBin(EQ, L.soff, mkC(64, x)), ve_, ce);
            if (ne != ce) storeE(s, L.oid, x, n, ne);
        }
    } else if (val.e) storeE(s, L.oid, L.off, n, val.e);
    else storeC(s, L.oid, L.off, n, val.c);
}
static uint64_t needConcrete(State &s, V v, const char *what)
{
    v = norm(s, v);
    if (!v.e) return v.c;
    return enumerate(s, v.e);
}
static void copyBytes(State &s, uint64_t dst, uint64_t src, uint64_t n)
{
    if (!n) return;
    uint32_t so, d; uint64_t soff, doff;
    if (!findObj(s, src, n, so, soff)) { std::string kd, m = badAccess(s, src, n, RD, kd); violation(s, kd, m + " (memory copy)"); }
    if (!findObj(s, dst, n, d, doff)) { std::string kd, m = badAccess(s, dst, n, WR, kd); violation(s, kd, m + " (memory copy)"); }
    if (s.objs[d]->kind == K_CONST) violation(s, "write-to-constant", s.objs[d]->name);
    Ref<Object> srcKeep = s.objs[so];
    std::vector<V> tmp; // keep uninitialised bytes uninitialised
    struct B { uint8_t st, dat; Cell c; };
    std::vector<B> buf(n);
    for (uint64_t i = 0; i < n; i++) {
        Page *p = srcKeep->page((soff + i) / PS); unsigned k = (soff + i) % PS;
        buf[i].st = p ? p->st[k] : 0; buf[i].dat = p ? p->data[k] : 0;
        if (buf[i].st == 2) buf[i].c = p->cells[k];
    }
    srcKeep = Ref<Object>();
    Object *o = wobj(s, d);
    for (uint64_t i = 0; i < n; i++) {
        Page *p = wpage(o, (doff + i) / PS); unsigned k = (doff + i) % PS;
        p->st[k] = buf[i].st; p->data[k] = buf[i].dat;
        if (buf[i].st == 2) { if (!p->cells) p->cells = new Cell[PS]; p->cells[k] = buf[i].c; }
    }
}
static void setBytes(State &s, uint64_t dst, V v, uint64_t n)
{
    if (!n) return;
    uint32_t d; uint64_t off;
    if (!findObj(s, dst, n, d, off)) { std::string kd, m = badAccess(s, dst, n, WR, kd); violation(s, kd, m + " (memory fill)"); }
    for (uint64_t i = 0; i < n; i++) { if (v.e) storeE(s, d, off + i, 1, mkExtract(v.e, 0, 8)); else storeC(s, d, off + i, 1, v.c & 0xff); }
}
static std::string readCStr(State &s, uint64_t a)
{
    std::string r;
    for (;;) {
        uint32_t o; uint64_t off;
        if (!findObj(s, a, 1, o, off)) return r + "<bad>";
        V v = loadV(s, o, off, 1);
        if (v.e) return r + "<sym>";
        if (!v.c) return r;
        r += (char)v.c; a++;
        if (r.size() > 4000) return r;
    }
}
static const char *internStr(const std::string &x) { static std::set<std::string> t; return t.insert(x).first->c_str(); }

static uint64_t doAlloc(State &s, uint64_t n, Kind k)
{
    static uint64_t lim = optParams.count("maxalloc") ? (uint64_t)optParams["maxalloc"] : 1ULL << 31;
    if (n > lim) return 0;
    const char *nm = internStr("allocated in " + s.st.back().f->demangled.substr(0, 120));
    uint32_t id = newObj(s, n, k, nm);
    if (k != K_EXC) wobj(s, id)->aseq = ++s.allocSeq;
    return objBase(id);
}
// hands the content of block `from` (about to be released) to the fresh block `to`
static void movePages(State &s, uint32_t to, uint32_t from)
{
    Object *n = wobj(s, to), *o = wobj(s, from);
    uint64_t k = (std::min(o->size, n->size) + PS - 1) / PS;
    if (o->huge && n->huge) { n->sparse.swap(o->sparse); n->sparse.erase(n->sparse.lower_bound(k), n->sparse.end()); }
    else if (!o->huge && !n->huge) { size_t want = n->pages.size(); n->pages.swap(o->pages); n->pages.resize(want); }
    else if (n->huge) { for (uint64_t i = 0; i < k; i++) if (o->pages[i]) n->sparse[i] = o->pages[i]; }
    else for (auto &e : o->sparse) if (e.first < k) n->pages[e.first] = e.second;
    uint64_t cut = std::min(o->size, n->size);
    if (cut % PS && n->page(cut / PS)) { Page *p = wpage(n, cut / PS); for (unsigned i = cut % PS; i < PS; i++) p->st[i] = 0; }
}
static void doFree(State &s, uint64_t p, Kind k)
{
    if (!p) return;
    if (isBig(s, p)) { uint32_t id = (p >> BIG_SHIFT) - 8; Object *o = new Object(*s.big[id].p); o->rc = 0; if (o->freed) violation(s, "double-free", ""); o->freed = true; s.big[id] = Ref<Object>(o); s.heapLive--; return; }
    uint64_t id = p >> 32;
    if (id >= s.objs.size() || !s.objs[id] || p != objBase(id) || s.objs[id]->alias || s.objs[id]->kind > K_NEWARR)
        violation(s, "bad-free", "release of a pointer that is not the start of a heap block");
    Object *o = s.objs[id].p;
    if (o->freed) violation(s, "double-free", std::string("block ") + o->name + " released twice");
    if (o->kind != k) violation(s, "alloc-dealloc-mismatch", std::string(kindName[o->kind]) + " block (" + o->name + ") released as " + kindName[k]);
    o = wobj(s, id);
    o->freed = true; o->pages.clear(); o->sparse.clear();
    s.heapLive--; s.heapEvents++; s.heapBytes -= o->size;
}

// ---------------------------------------------------------------- constants
static uint64_t funcAddr(const Function *f);
static uint64_t constVal(const Constant *c, bool &undef)
{
    undef = false;
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return i->getValue().extractBitsAsZExtValue(64, 0); return i->getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) { undef = true; return 0; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) { fprintf(stderr, "global %s\n", g->getName().str().c_str()); exit(3); } return it->second; }
    if (auto *f = dyn_cast<Function>(c)) return funcAddr(f);
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee(), undef);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        bool u; 
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep const\n"); exit(3); }
            return constVal(ce->getOperand(0), u) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return constVal(ce->getOperand(0), u);
        case Instruction::Trunc: return constVal(ce->getOperand(0), u) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::Sub: return constVal(ce->getOperand(0), u) - constVal(ce->getOperand(1), u);
        case Instruction::Add: return constVal(ce->getOperand(0), u) + constVal(ce->getOperand(1), u);
        default: break;
        }
    }
    if (isa<ConstantFP>(c)) return cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt().getZExtValue();
    std::string str; raw_string_ostream os(str); c->print(os);
    fprintf(stderr, "unsupported constant %s\n", str.c_str()); exit(3);
}
static void initMem(State &s, uint32_t oid, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    uint64_t sz = DL->getTypeStoreSize(t);
    if (c->isNullValue()) { for (uint64_t i = 0; i < sz; i++) storeC(s, oid, off + i, 1, 0); return; }
    if (isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) {
            if (cd->getElementType()->isIntegerTy()) storeC(s, oid, off + i * es, es, cd->getElementAsInteger(i));
            else storeC(s, oid, off + i * es, es, cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue());
        }
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(s, oid, off + i * es, ca->getOperand(i)); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { const StructLayout *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(s, oid, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    bool u; uint64_t v = constVal(c, u);
    if (!u) storeC(s, oid, off, sz, v);
}

// ---------------------------------------------------------------- decoding
static unsigned scalarW(Type *t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
static void flat(Type *t, std::vector<uint8_t> &ws, std::vector<uint64_t> *offs, uint64_t base = 0)
{
    if (auto *st = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), ws, offs, base + sl->getElementOffset(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), ws, offs, base + i * es); return; }
    ws.push_back(scalarW(t)); if (offs) offs->push_back(base);
}
static int slotIndex(Type *t, ArrayRef<unsigned> idx)
{
    int k = 0;
    for (unsigned i : idx) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) { std::vector<uint8_t> w; flat(st->getElementType(j), w, nullptr); k += w.size(); } t = st->getElementType(i); }
        else { auto *at = cast<ArrayType>(t); std::vector<uint8_t> w; flat(at->getElementType(), w, nullptr); k += w.size() * i; t = at->getElementType(); }
    }
    return k;
}
static int builtinId(const std::string &name);
static Func *getFunc(const Function *f)
{
    auto it = funcs.find(f);
    if (it != funcs.end()) return it->second;
    Func *F = new Func; F->f = f; F->name = f->getName().str(); F->demangled = demangle(F->name);
    funcs[f] = F;
    F->addr = FUNC_BASE + funcByAddr.size() * 16;
    funcByAddr.push_back(F);
    return F;
}
static uint64_t funcAddr(const Function *f) { return getFunc(f)->addr; }

static void decode(Func *F)
{
    F->decoded = true;
    const Function &f = *F->f;
    std::unordered_map<const Value *, int> regOf;
    std::unordered_map<const BasicBlock *, int> blk;
    int nr = 0;
    auto addVal = [&](const Value *v) { std::vector<uint8_t> ws; flat(v->getType(), ws, nullptr); regOf[v] = nr; nr += ws.size(); return (int)ws.size(); };
    for (auto &a : f.args()) addVal(&a);
    F->nargslots = nr;
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) addVal(&i);
    F->nregs = nr;
    auto opS = [&](const Value *v, int slot) {
        Opnd o;
        auto it = regOf.find(v);
        if (it != regOf.end()) {
            o.reg = it->second + slot;
            std::vector<uint8_t> ws; flat(v->getType(), ws, nullptr); o.w = ws[slot];
            return o;
        }
        const Constant *c = dyn_cast<Constant>(v);
        if (!c) { fprintf(stderr, "operand?\n"); exit(3); }
        std::vector<uint8_t> ws; flat(v->getType(), ws, nullptr);
        o.w = ws[slot];
        if (v->getType()->isAggregateType()) {
            if (isa<UndefValue>(c)) { o.undef = true; return o; }
            if (c->isNullValue()) { o.c = 0; return o; }
            // descend
            int s = slot; Type *t = c->getType(); const Constant *cc = c;
            while (t->isAggregateType()) {
                unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
                for (unsigned i = 0; i < n; i++) { const Constant *e = cc->getAggregateElement(i); std::vector<uint8_t> w2; flat(e->getType(), w2, nullptr); if (s < (int)w2.size()) { cc = e; break; } s -= w2.size(); }
                t = cc->getType();
            }
            o.c = constVal(cc, o.undef);
            return o;
        }
        o.c = constVal(c, o.undef) & maskw(o.w ? o.w : 64);
        return o;
    };
    auto op = [&](const Value *v) { return opS(v, 0); };
    // block starts
    int pc = 0;
    for (auto &b : f) {
        blk[&b] = pc;
        for (auto &i : b) {
            if (isa<PHINode>(i)) continue;
            if (auto *ci = dyn_cast<CallInst>(&i)) if (auto *cf = ci->getCalledFunction()) { StringRef n = cf->getName(); if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") || n == "llvm.donothing") continue; }
            pc++;
        }
    }
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e; e.target = blk[to];
        for (auto &i : *to) {
            auto *p = dyn_cast<PHINode>(&i);
            if (!p) break;
            const Value *v = p->getIncomingValueForBlock(from);
            std::vector<uint8_t> ws; flat(p->getType(), ws, nullptr);
            for (unsigned k = 0; k < ws.size(); k++) e.moves.push_back({regOf[p] + (int)k, opS(v, k)});
        }
        F->edges.push_back(e);
        return (int)F->edges.size() - 1;
    };
    for (auto &b : f) for (auto &i : b) {
        if (isa<PHINode>(i)) continue;
        Ins x; x.li = &i; x.op = I_UNSUP;
        if (!i.getType()->isVoidTy()) { x.dst = regOf[&i]; std::vector<uint8_t> ws; flat(i.getType(), ws, nullptr); x.nslots = ws.size(); x.slotw = ws; if (ws.size() == 1) x.w = ws[0]; }
        if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
            x.op = I_BIN; x.a = op(bo->getOperand(0)); x.b = op(bo->getOperand(1));
            switch (bo->getOpcode()) {
            case Instruction::Add: x.sub = ADD; break; case Instruction::Sub: x.sub = SUB; break; case Instruction::Mul: x.sub = MUL; break;
            case Instruction::UDiv: x.sub = UDIV; break; case Instruction::SDiv: x.sub = SDIV; break; case Instruction::URem: x.sub = UREM; break; case Instruction::SRem: x.sub = SREM; break;
            case Instruction::And: x.sub = AND; break; case Instruction::Or: x.sub = OR; break; case Instruction::Xor: x.sub = XOR; break;
            case Instruction::Shl: x.sub = SHL; break; case Instruction::LShr: x.sub = LSHR; break; case Instruction::AShr: x.sub = ASHR; break;
            default: x.op = I_UNSUP;
            }
            if (!i.getType()->isIntegerTy() || x.w > 64) x.op = I_UNSUP;
        } else if (auto *ic = dyn_cast<ICmpInst>(&i)) {
            x.op = I_ICMP; x.a = op(ic->getOperand(0)); x.b = op(ic->getOperand(1)); x.sub = ic->getPredicate(); x.w2 = scalarW(ic->getOperand(0)->getType());
            if (!x.w2) x.op = I_UNSUP;
        } else if (auto *l = dyn_cast<LoadInst>(&i)) {
            x.op = I_LOAD; x.a = op(l->getPointerOperand());
            if (x.nslots > 1) { x.slotw.clear(); flat(i.getType(), x.slotw, &x.slotoff); }
        } else if (auto *st = dyn_cast<StoreInst>(&i)) {
            x.op = I_STORE; x.b = op(st->getPointerOperand());
            flat(st->getValueOperand()->getType(), x.slotw, &x.slotoff); x.nslots = x.slotw.size();
            for (int k = 0; k < x.nslots; k++) x.args.push_back(opS(st->getValueOperand(), k));
            x.w = x.slotw[0];
        } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
            x.op = I_ALLOCA; x.goff = DL->getTypeAllocSize(al->getAllocatedType()); x.a = op(al->getArraySize());
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
            x.op = I_GEP; x.a = op(g->getPointerOperand());
            for (auto it = gep_type_begin(g), en = gep_type_end(g); it != en; ++it) {
                Value *idx = it.getOperand();
                if (StructType *stt = it.getStructTypeOrNull()) { x.goff += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                uint64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                if (auto *ci = dyn_cast<ConstantInt>(idx)) { x.goff += ci->getSExtValue() * sc; continue; }
                x.gep.push_back({op(idx), sc});
            }
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) { x.op = I_CBR; x.a = op(br->getCondition()); x.e1 = edge(&b, br->getSuccessor(0)); x.e2 = edge(&b, br->getSuccessor(1)); }
            else { x.op = I_BR; x.e1 = edge(&b, br->getSuccessor(0)); }
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
            x.op = I_SWITCH; x.a = op(sw->getCondition()); x.w = x.a.w; x.e1 = edge(&b, sw->getDefaultDest());
            for (auto &c : sw->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&b, c.getCaseSuccessor())});
        } else if (auto *r = dyn_cast<ReturnInst>(&i)) {
            x.op = I_RET;
            if (r->getReturnValue()) { std::vector<uint8_t> ws; flat(r->getReturnValue()->getType(), ws, nullptr); for (unsigned k = 0; k < ws.size(); k++) x.args.push_back(opS(r->getReturnValue(), k)); }
        } else if (auto *cb = dyn_cast<CallBase>(&i)) {
            if (cb->isInlineAsm()) { x.op = I_UNSUP; F->code.push_back(x); continue; }
            const Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
            if (cf) { StringRef n = cf->getName(); if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias") || n == "llvm.donothing") continue; }
            x.op = I_CALL;
            for (unsigned k = 0; k < cb->arg_size(); k++) {
                Value *v = cb->getArgOperand(k);
                if (v->getType()->isMetadataTy()) { Opnd o; x.args.push_back(o); x.byval.push_back(0); continue; }
                std::vector<uint8_t> ws; flat(v->getType(), ws, nullptr);
                for (unsigned q = 0; q < ws.size(); q++) { x.args.push_back(opS(v, q)); x.byval.push_back(cb->isByValArgument(k) ? DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
            }
            if (cf) {
                x.builtin = builtinId(cf->getName().str());
                if (x.builtin < 0) { x.callee = getFunc(cf); if (cf->isDeclaration()) x.builtin = -2; }
            } else { x.indirect = true; x.a = op(cb->getCalledOperand()); }
            if (auto *inv = dyn_cast<InvokeInst>(&i)) { x.invoke = true; x.e1 = edge(&b, inv->getNormalDest()); x.e2 = edge(&b, inv->getUnwindDest()); }
        } else if (auto *se = dyn_cast<SelectInst>(&i)) {
            x.op = I_SELECT; x.a = op(se->getCondition()); x.b = op(se->getTrueValue()); x.c = op(se->getFalseValue());
            if (x.nslots != 1) x.op = I_UNSUP;
        } else if (isa<ZExtInst>(i)) { x.op = I_ZEXT; x.a = op(i.getOperand(0)); }
        else if (isa<SExtInst>(i)) { x.op = I_SEXT; x.a = op(i.getOperand(0)); }
        else if (isa<TruncInst>(i)) { x.op = I_TRUNC; x.a = op(i.getOperand(0)); if (x.a.w > 64) x.op = I_UNSUP; }
        else if (isa<BitCastInst>(i) || isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i)) { x.op = I_MOV; x.a = op(i.getOperand(0)); if (x.a.w != x.w) x.op = x.a.w < x.w ? I_ZEXT : I_TRUNC; }
        else if (isa<FreezeInst>(i)) { x.op = I_FREEZE; x.a = op(i.getOperand(0)); }
        else if (auto *evi = dyn_cast<ExtractValueInst>(&i)) {
            x.op = I_AGGMOV; int k = slotIndex(evi->getAggregateOperand()->getType(), evi->getIndices());
            for (int q = 0; q < x.nslots; q++) x.args.push_back(opS(evi->getAggregateOperand(), k + q));
        } else if (auto *ivi = dyn_cast<InsertValueInst>(&i)) {
            x.op = I_AGGMOV; int k = slotIndex(i.getType(), ivi->getIndices());
            std::vector<uint8_t> ws; flat(ivi->getInsertedValueOperand()->getType(), ws, nullptr);
            for (int q = 0; q < x.nslots; q++) x.args.push_back(q >= k && q < k + (int)ws.size() ? opS(ivi->getInsertedValueOperand(), q - k) : opS(ivi->getAggregateOperand(), q));
        } else if (isa<LandingPadInst>(i)) x.op = I_LANDING;
        else if (isa<ResumeInst>(i)) { x.op = I_RESUME; x.a = opS(i.getOperand(0), 0); x.b = opS(i.getOperand(0), 1); }
        else if (isa<UnreachableInst>(i)) x.op = I_UNREACH;
        F->code.push_back(x);
    }
}

// ---------------------------------------------------------------- execution
static inline V getv(State &s, Frame &f, const Opnd &o)
{
    if (o.reg >= 0) return f.regs[o.reg];
    if (o.undef) return ve(freshAny(s, o.w, "undef"));
    return vc(o.c);
}
static inline E asE(const V &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }
static void takeEdge(State &s, Frame &f, int e)
{
    const Edge &ed = f.f->edges[e];
    if (ed.moves.size() == 1) { f.regs[ed.moves[0].first] = getv(s, f, ed.moves[0].second); }
    else if (!ed.moves.empty()) {
        static std::vector<V> t; t.clear();
        for (auto &m : ed.moves) t.push_back(getv(s, f, m.second));
        for (size_t i = 0; i < t.size(); i++) f.regs[ed.moves[i].first] = t[i];
    }
    f.pc = ed.target;
}
static void popFrame(State &s)
{
    for (uint32_t id : s.st.back().allocas) { Object *o = wobj(s, id); o->freed = true; o->pages.clear(); o->sparse.clear(); }
    s.st.pop_back();
}
// complete a call: write result to dst, advance
static void retTo(State &s, const Ins &x, const std::vector<V> &vals)
{
    Frame &f = s.st.back();
    for (size_t i = 0; i < vals.size() && x.dst >= 0 && (int)i < x.nslots; i++) f.regs[x.dst + i] = vals[i];
    if (x.invoke) takeEdge(s, f, x.e1); else f.pc++;
}
static void ret1(State &s, const Ins &x, V v)
{
    Frame &f = s.st.back();
    if (x.dst >= 0) f.regs[x.dst] = v;
    if (x.invoke) takeEdge(s, f, x.e1); else f.pc++;
}
static void finishPath(State &s);
static void swapThreads(State &s);

static const std::map<std::string, std::string> excBase = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static std::unordered_map<uint64_t, std::string> tiName;
static uint64_t tiByName(const std::string &n)
{
    for (auto &p : tiName) if (p.second == n) return p.first;
    uint64_t a = 0x0060000000000000ULL + tiName.size() * 64 + 0x100000000ULL;
    tiName[a] = n;
    return a;
}
static bool tiMatch(uint64_t thrown, uint64_t want)
{
    if (thrown == want) return true;
    std::string n = tiName.count(thrown) ? tiName[thrown] : "", w = tiName.count(want) ? tiName[want] : "";
    while (!n.empty()) {
        if (n == w) return true;
        auto it = excBase.find(n);
        if (it != excBase.end()) { n = it->second; continue; }
        // class defined in this module: __si_class_type_info {vtable, name, base}
        GlobalVariable *g = M->getNamedGlobal(n);
        if (g && g->hasInitializer() && g->getInitializer()->getNumOperands() >= 3)
            if (auto *b = dyn_cast<GlobalVariable>(g->getInitializer()->getOperand(2)->stripPointerCasts())) { n = b->getName().str(); continue; }
        return false;
    }
    return false;
}
static void unwind(State &s)
{
    for (;;) {
        if (s.st.empty()) return;
        Frame &f = s.st.back();
        const Ins &x = f.f->code[f.pc];
        if (x.op == I_CALL && x.invoke) {
            // does the landing pad take it?
            auto *inv = cast<InvokeInst>(x.li);
            auto *lp = inv->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                if (!lp->isCatch(i)) { sel = -2; continue; }
                bool u; Constant *c = lp->getClause(i);
                uint64_t want = isa<ConstantPointerNull>(c) ? 0 : constVal(c, u);
                if (want == 0 || tiMatch(s.excTi, want)) sel = want == 0 ? 0x7fffffff : (int)(uint32_t)(want >> 32 ^ want);
            }
            if (sel == -1 && lp->isCleanup()) sel = 0;
            if (sel != -1) {
                takeEdge(s, f, x.e2);
                const Ins &l = f.f->code[f.pc];
                f.regs[l.dst] = vc(s.excPtr); f.regs[l.dst + 1] = vc((uint32_t)sel);
                f.pc++;
                return;
            }
        }
        if (s.st.size() == 1) {
            std::string n = tiName.count(s.excTi) ? tiName[s.excTi] : "?";
            violation(s, "uncaught-exception", "exception of type " + n + " leaves the harness");
        }
        popFrame(s);
    }
}
static void doThrow(State &s, const std::string &ti)
{
    s.excPtr = doAlloc(s, 64, K_EXC); s.excTi = tiByName(ti);
    unwind(s);
}

#include "builtins.inc"

static void swapThreads(State &s)
{
    s.thread2 = !s.thread2;
    std::swap(s.st, s.st2); std::swap(s.excPtr, s.excPtr2); std::swap(s.excTi, s.excTi2); std::swap(s.caught, s.caught2);
    for (size_t i = 0; i < gTls.size(); i++) std::swap(s.objs[gTls[i]], s.tls[i]);
}
static void enterFunc(State &s, const Ins &x, Func *F, const std::vector<V> &args)
{
    if (!F->decoded) decode(F);
    if (F->code.empty()) inconclusive("call of external function " + F->name);
    if (s.st.size() > 20000) violation(s, "stack-overflow", "call depth exceeds 20000");
    s.st.emplace_back();
    Frame &f = s.st.back();
    f.f = F; f.pc = 0; f.regs.resize(F->nregs);
    for (size_t i = 0; i < args.size() && (int)i < F->nargslots; i++) {
        V v = args[i];
        if (i < x.byval.size() && x.byval[i]) {
            uint32_t id = newObj(s, x.byval[i], K_STACK, "byval argument");
            f.allocas.push_back(id);
            copyBytes(s, objBase(id), needConcrete(s, v, "byval"), x.byval[i]);
            v = vc(objBase(id));
        }
        f.regs[i] = v;
    }
    F->execd++;
}

static void step(State &s)
{
    Frame *fp = &s.st.back();
    const Ins *xp = &fp->f->code[fp->pc];
    const Ins &x = *xp; Frame &f = *fp;
    switch (x.op) {
    case I_BIN: {
        V a = getv(s, f, x.a), b = getv(s, f, x.b);
        unsigned w = x.w;
        if (x.sub >= UDIV && x.sub <= SREM) {
            b = norm(s, b);
            if (!b.e ? (b.c & maskw(w)) == 0 : decide(s, mkBin(EQ, b.e, mkC(w, 0)))) violation(s, "division-by-zero", "");
        }
        if (x.sub >= SHL && x.sub <= ASHR) {
            // a shift by at least the width has no defined result: any value
            b = norm(s, b);
            if (!b.e) {
                if (b.c >= w) { gNotes["oversized shift at " + locOf(x.li)]++; f.regs[x.dst] = ve(freshAny(s, w, "shift")); f.pc++; return; }
            } else if (b.e->umax >= w) {
                if (decide(s, mkBin(ULE, mkC(w, w), b.e))) { gNotes["oversized shift at " + locOf(x.li)]++; f.regs[x.dst] = ve(freshAny(s, w, "shift")); f.pc++; return; }
                if (w == 64 || w == 32) { // fork on the amount: constant shifts are slices
                    b = vc(enumerate(s, b.e));
                }
            } else if (b.e) b = vc(enumerate(s, b.e));
        }
        if (!a.e && !b.e) f.regs[x.dst] = vc(foldbin((Op)x.sub, w, a.c, b.c));
        else f.regs[x.dst] = ve(mkBin((Op)x.sub, asE(a, w), asE(b, w)));
        f.pc++; return;
    }
    case I_ICMP: {
        V a = getv(s, f, x.a), b = getv(s, f, x.b);
        unsigned w = x.w2; Op o = EQ; bool neg = false, sw = false;
        switch (x.sub) {
        case CmpInst::ICMP_EQ: break; case CmpInst::ICMP_NE: neg = true; break;
        case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_ULE: o = ULE; break;
        case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_UGE: o = ULE; sw = true; break;
        case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SLE: o = SLE; break;
        case CmpInst::ICMP_SGT: o = SLT; sw = true; break; case CmpInst::ICMP_SGE: o = SLE; sw = true; break;
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e) f.regs[x.dst] = vc(foldbin(o, w, a.c, b.c) ^ (neg ? 1 : 0));
        else { E e = mkBin(o, asE(a, w), asE(b, w)); f.regs[x.dst] = ve(neg ? mkNot(e) : e); }
        f.pc++; return;
    }
    case I_LOAD: {
        V p = getv(s, f, x.a);
        if (x.nslots == 1) { V v = memLoad(s, p, x.w); s.st.back().regs[x.dst] = v; }
        else {
            p = vc(needConcrete(s, p, "aggregate load"));
            for (int i = 0; i < x.nslots; i++) f.regs[x.dst + i] = memLoad(s, vc(p.c + x.slotoff[i]), x.slotw[i]);
        }
        f.pc++; return;
    }
    case I_STORE: {
        V p = getv(s, f, x.b);
        if (x.nslots == 1) memStore(s, p, x.w, getv(s, f, x.args[0]));
        else {
            p = vc(needConcrete(s, p, "aggregate store"));
            for (int i = 0; i < x.nslots; i++) memStore(s, vc(p.c + x.slotoff[i]), x.slotw[i], getv(s, f, x.args[i]));
        }
        f.pc++; return;
    }
    case I_ALLOCA: {
        uint64_t n = needConcrete(s, getv(s, f, x.a), "alloca");
        uint32_t id = newObj(s, n * x.goff, K_STACK, f.f->name.c_str());
        f.allocas.push_back(id);
        f.regs[x.dst] = vc(objBase(id));
        f.pc++; return;
    }
    case I_GEP: {
        V p = getv(s, f, x.a);
        uint64_t c = x.goff; E e = p.e;
        if (!e) c += p.c;
        for (auto &g : x.gep) {
            V i = getv(s, f, g.o);
            if (!i.e) c += (uint64_t)sext64(i.c, g.o.w) * g.scale;
            else { E t = mkBin(MUL, mkSext(i.e, 64), mkC(64, g.scale)); e = e ? mkBin(ADD, e, t) : t; }
        }
        f.regs[x.dst] = e ? ve(mkBin(ADD, e, mkC(64, c))) : vc(c);
        f.pc++; return;
    }
    case I_BR: takeEdge(s, f, x.e1); return;
    case I_CBR: {
        V c = getv(s, f, x.a);
        bool v = c.e ? decide(s, c.e) : (c.c & 1);
        takeEdge(s, f, v ? x.e1 : x.e2);
        return;
    }
    case I_SWITCH: {
        V c = norm(s, getv(s, f, x.a));
        if (!c.e) {
            for (auto &k : x.cases) if (k.first == (c.c & maskw(x.w))) { takeEdge(s, f, k.second); return; }
            takeEdge(s, f, x.e1); return;
        }
        for (auto &k : x.cases) if (decide(s, mkBin(EQ, c.e, mkC(x.w, k.first)))) { takeEdge(s, f, k.second); return; }
        takeEdge(s, f, x.e1); return;
    }
    case I_RET: {
        std::vector<V> r; for (auto &o : x.args) r.push_back(getv(s, f, o));
        popFrame(s);
        if (s.st.empty() && s.thread2) { swapThreads(s); return; } // the second thread ends
        if (s.st.empty()) { finishPath(s); throw PathEnd(); }
        Frame &c = s.st.back();
        retTo(s, c.f->code[c.pc], r);
        return;
    }
    case I_CALL: {
        static std::vector<V> args; args.clear();
        for (auto &o : x.args) args.push_back(o.reg >= 0 ? f.regs[o.reg] : o.undef ? ve(freshAny(s, o.w, "undef")) : vc(o.c));
        if (x.builtin >= 0) { runBuiltin(s, x, x.builtin, args); return; }
        Func *F = x.callee;
        if (x.indirect) {
            uint64_t a = needConcrete(s, getv(s, f, x.a), "function pointer");
            if (a < FUNC_BASE || (a - FUNC_BASE) / 16 >= funcByAddr.size()) violation(s, "bad-call", "call through invalid function pointer");
            F = funcByAddr[(a - FUNC_BASE) / 16];
            int b = builtinId(F->name);
            if (b >= 0) { runBuiltin(s, x, b, args); return; }
        }
        if (F->f->isDeclaration()) inconclusive("call of external function " + F->name);
        enterFunc(s, x, F, args);
        return;
    }
    case I_SELECT: {
        V c = norm(s, getv(s, f, x.a)), a = getv(s, f, x.b), b = getv(s, f, x.c);
        if (!c.e) f.regs[x.dst] = (c.c & 1) ? a : b;
        else if (x.w >= 32 && (std::max(a.e ? a.e->nd : 0, b.e ? b.e->nd : 0) >= 2 || overWide(c.e))) f.regs[x.dst] = decide(s, c.e) ? a : b; // selections among sizes become paths
        else f.regs[x.dst] = ve(mkIte(c.e, asE(a, x.w), asE(b, x.w)));
        f.pc++; return;
    }
    case I_ZEXT: { V a = getv(s, f, x.a); f.regs[x.dst] = a.e ? ve(mkZext(a.e, x.w)) : vc(a.c & maskw(x.a.w)); f.pc++; return; }
    case I_SEXT: { V a = getv(s, f, x.a); f.regs[x.dst] = a.e ? ve(mkSext(a.e, x.w)) : vc((uint64_t)sext64(a.c, x.a.w) & maskw(x.w)); f.pc++; return; }
    case I_TRUNC: { V a = getv(s, f, x.a); f.regs[x.dst] = a.e ? ve(mkExtract(a.e, 0, x.w)) : vc(a.c & maskw(x.w)); f.pc++; return; }
    case I_MOV: case I_FREEZE: { f.regs[x.dst] = getv(s, f, x.a); f.pc++; return; }
    case I_AGGMOV: { V t[16]; int n = std::min(16, x.nslots); for (int i = 0; i < n; i++) t[i] = getv(s, f, x.args[i]); for (int i = 0; i < n; i++) f.regs[x.dst + i] = t[i]; f.pc++; return; }
    case I_LANDING: inconclusive("landing pad reached by fallthrough");
    case I_RESUME: popFrame(s); if (s.st.empty()) throw PathEnd(); unwind(s); return;
    case I_UNREACH: violation(s, "unreachable", "unreachable instruction executed");
    default: {
        std::string str; raw_string_ostream os(str); x.li->print(os);
        inconclusive("unsupported instruction " + str);
    }
    }
}

static void finishPath(State &s)
{
    S.paths++;
    for (auto &l : s.labels) gLabels.insert(l);
    gTestSeen++;
    bool keep = (int)gTests.size() < optTests;
    size_t slot = gTests.size();
    if (!keep && optTests) { uint64_t r = rnd() % gTestSeen; if (r < (uint64_t)optTests) { keep = true; slot = r; } }
    if (keep) {
        std::string t = inputsOf(s, s.model) + "|";
        char b[64];
        for (auto &o : s.obs) { snprintf(b, sizeof b, "%s=%llx;", o.first, (unsigned long long)(o.second.e ? evalE(o.second.e, s.model) : o.second.c)); t += b; }
        if (slot == gTests.size()) gTests.push_back(t); else gTests[slot] = t;
    }
}

// run one state until it ends (or forks are queued in `work`)
static void runState(State *s)
{
    cur = s;
    Func *lastF = nullptr; uint64_t cnt = 0, start = s->steps;
    try {
        for (;;) {
            try {
                Frame &f = s->st.back();
                (void)f; (void)lastF;
                step(*s);
            } catch (Retry &) {}
            s->steps++; cnt++;
            if ((cnt & 0x3fff) == 0) {
                if (shm->stop || now() > tEnd) { if (!shm->stop) gNotes["time budget exhausted"]++; S.exhausted = 0; break; }
            }
            if (s->steps > optMaxSteps) { recordViol(*s, "step-limit", "path exceeds " + std::to_string(optMaxSteps) + " instructions (non-termination?)", s->model); break; }
        }
    } catch (PathEnd &) {}
    S.steps += s->steps - start;
    delete s;
    cur = nullptr;
}

static std::string js(const std::string &x)
{
    std::string r = "\"";
    for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
static void dump(FILE *o)
{
    fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"enumerations\":%llu,\"max_pc\":%llu,\"solver_s\":%.3f,\"exhausted\":%d,\n",
        (unsigned long long)S.paths, (unsigned long long)S.killed, (unsigned long long)S.forks, (unsigned long long)S.steps, (unsigned long long)S.queries, (unsigned long long)S.qsat, (unsigned long long)S.qunsat, (unsigned long long)S.qunknown,
        (unsigned long long)S.asserts, (unsigned long long)S.assertQueries, (unsigned long long)S.concr, (unsigned long long)S.maxpc, S.solver, (int)S.exhausted);
    fprintf(o, "\"labels\":[");
    bool first = true;
    for (auto &l : gLabels) { fprintf(o, "%s%s", first ? "" : ",", js(l).c_str()); first = false; }
    fprintf(o, "],\n\"notes\":{"); first = true;
    for (auto &n : gNotes) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(n.first).c_str(), (unsigned long long)n.second); first = false; }
    fprintf(o, "},\n\"functions\":{"); first = true;
    for (auto &p : funcs) if (p.second->execd) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(p.second->demangled).c_str(), (unsigned long long)p.second->execd); first = false; }
    fprintf(o, "},\n\"violations\":["); first = true;
    for (auto &v : gViol) { fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"trace\":%s,\"inputs\":%s,\"stale\":%s}", first ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str(), js(v.trace).c_str(), js(v.inputs).c_str(), js(v.stale).c_str()); first = false; }
    fprintf(o, "],\n\"tests\":["); first = true;
    for (auto &t : gTests) { fprintf(o, "%s%s", first ? "" : ",\n", js(t).c_str()); first = false; }
    fprintf(o, "]}\n");
}

int main(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx();
        else if (a == "--out") optOut = nx();
        else if (a == "--jobs") optJobs = atoi(argv[++i]);
        else if (a == "--time") optTime = atof(argv[++i]);
        else if (a == "--max-steps") optMaxSteps = strtoull(argv[++i], 0, 10);
        else if (a == "--max-viol") optMaxViol = atoi(argv[++i]);
        else if (a == "--tests") optTests = atoi(argv[++i]);
        else if (a == "--seed") optSeed = strtoull(argv[++i], 0, 10);
        else if (a == "--query-ms") optQueryMs = atoi(argv[++i]);
        else if (a == "-v") optVerbose = true;
        else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); optParams[p.substr(0, e)] = strtol(p.c_str() + e + 1, 0, 0); }
        else optModule = a;
    }
    double t0 = now();
    tEnd = t0 + optTime;
    rngState ^= optSeed * 0x9E3779B97F4A7C15ULL; rnd(); rnd();
    shm = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm->next = 0; shm->stop = 0;
    SMDiagnostic err;
    M = parseIRFile(optModule, err, LC);
    if (!M) { err.print("fsx", errs()); return 3; }
    DL = &M->getDataLayout();
    initExpr();
    Z3_config cfg = Z3_mk_config();
    g_z3 = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(g_z3, z3err);
    bool arrays = optParams.count("arrays") && optParams["arrays"];
    slv = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, arrays ? "QF_ABV" : "QF_BV"));
    Z3_solver_inc_ref(g_z3, slv);
    Z3_params pr = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, pr);
    Z3_params_set_uint(g_z3, pr, Z3_mk_string_symbol(g_z3, "timeout"), optQueryMs);
    Z3_solver_set_params(g_z3, slv, pr);

    State *s = new State;
    s->objs.resize(16); // low ids stay invalid: small integers are never addresses
    // globals
    for (auto &g : M->globals()) {
        if (g.getName().starts_with("_ZTI")) { std::string n = g.getName().str(); gaddr[&g] = tiByName(n); continue; }
        uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 8;
        if (!g.hasInitializer() && sz < 1024) sz = 1024;
        uint32_t id = newObj(*s, sz, g.isConstant() ? K_CONST : K_GLOBAL, internStr(g.getName().str()));
        gaddr[&g] = objBase(id);
    }
    for (auto &f : *M) getFunc(&f);
    for (auto &g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("_ZTI") && !g.getName().starts_with("_ZTV") && !g.getName().starts_with("_ZTS") && !g.getName().starts_with("llvm.")) initMem(*s, gaddr[&g] >> 32, 0, g.getInitializer());
    for (auto &g : M->globals()) if (g.isThreadLocal() && gaddr.count(&g)) { gTls.push_back(gaddr[&g] >> 32); gTlsInit.push_back(s->objs[gTls.back()]); }
    s->tls = gTlsInit;
    Function *ef = M->getFunction(optEntry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
    // frames: entry at the bottom; global constructors run first, on top of it
    auto push = [&](Function *f) {
        Func *F = getFunc(f); if (!F->decoded) decode(F); F->execd++;
        s->st.emplace_back(); Frame &fr = s->st.back(); fr.f = F; fr.pc = 0; fr.regs.resize(F->nregs);
    };
    // constructors: run each to completion in its own single-frame state
    if (GlobalVariable *gc = M->getNamedGlobal("llvm.global_ctors")) {
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                Function *cf = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts());
                if (!cf || cf->isDeclaration()) continue;
                push(cf);
                cur = s;
                bool done = false;
                try { while (!done) { if (s->st.size() == 1 && s->st.back().f->code[s->st.back().pc].op == I_RET) { popFrame(*s); done = true; } else { try { step(*s); } catch (Retry &) {} } } }
                catch (PathEnd &) { fprintf(stderr, "global constructor failed\n"); return 3; }
                s->heapLive = s->heapBytes = s->heapPeak = 0;
            }
        }
    }
    push(ef);
    s->heapLive = s->heapBytes = s->heapPeak = 0;
    // breadth-first until there is enough work to distribute
    std::deque<State *> bfs; bfs.push_back(s);
    int jobs = optJobs;
    size_t target = jobs > 1 ? 24 * jobs : 1000000000;
    if (jobs <= 1) {
        while (!bfs.empty() && !shm->stop) {
            State *x = bfs.back(); bfs.pop_back();
            if (now() > tEnd) { S.exhausted = 0; gNotes["time budget exhausted"]++; break; }
            runState(x);
            for (State *w : work) bfs.push_back(w);
            work.clear();
        }
    } else {
        while (!bfs.empty() && bfs.size() < target && !shm->stop && !(now() - t0 > 1.0 && bfs.size() >= (size_t)jobs) && !(now() - t0 > 6.0 && bfs.size() > 1)) {
            State *x = bfs.front(); bfs.pop_front();
            if (now() > tEnd) { S.exhausted = 0; gNotes["time budget exhausted"]++; break; }
            runState(x);
            for (State *w : work) bfs.push_back(w);
            work.clear();
        }
    }
    FILE *out = optOut.empty() ? stdout : fopen(optOut.c_str(), "w");
    if (!out) { perror("out"); return 3; }
    fprintf(out, "{\"parts\":[\n");
    if (!bfs.empty() && !shm->stop && jobs > 1 && now() < tEnd) {
        std::vector<State *> items(bfs.begin(), bfs.end());
        std::vector<std::string> outs;
        std::vector<pid_t> pids;
        for (int w = 0; w < jobs; w++) {
            char nm[128]; snprintf(nm, sizeof nm, "%s.w%d.%d", optOut.empty() ? "/tmp/fsx" : optOut.c_str(), w, (int)getpid());
            outs.push_back(nm);
            fflush(out);
            pid_t p = fork();
            if (p == 0) {
                S = Stats(); gViol.clear(); gTests.clear(); gTestSeen = 0; gNotes.clear();
                for (auto &q : funcs) q.second->execd = 0;
                rngState += w * 0x9E3779B97F4A7C15ULL; rnd();
                optTests = (optTests + jobs - 1) / jobs;
                for (;;) {
                    long i = __sync_fetch_and_add(&shm->next, 1);
                    if (i >= (long)items.size()) break;
                    if (shm->stop) { S.exhausted = 0; break; }
                    std::vector<State *> st; st.push_back(items[i]);
                    while (!st.empty()) {
                        if (shm->stop || now() > tEnd) { S.exhausted = 0; if (!shm->stop) gNotes["time budget exhausted"]++; break; }
                        State *x = st.back(); st.pop_back();
                        runState(x);
                        for (State *k : work) st.push_back(k);
                        work.clear();
                    }
                }
                FILE *o = fopen(nm, "w"); dump(o); fclose(o);
                _exit(0);
            }
            pids.push_back(p);
        }
        bool bad = false;
        for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true; }
        if (bad) { S.exhausted = 0; gNotes["INCONCLUSIVE: worker process died"]++; }
        for (auto &nm : outs) {
            FILE *i = fopen(nm.c_str(), "r");
            if (i) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, i)) > 0) fwrite(b, 1, k, out); fclose(i); unlink(nm.c_str()); fprintf(out, ",\n"); }
        }
    }
    dump(out);
    fprintf(out, "],\"wall_s\":%.3f,\"exprs\":%llu}\n", now() - t0, (unsigned long long)exprCount());
    fclose(out);
    fflush(stdout);
    _exit(0);
}
