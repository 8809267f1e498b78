// Intrinsics of the harness interface, the C library subset and the C++ runtime subset.
enum Bi {
    B_NONE = -1,
    B_SYM, B_U64, B_RANGE, B_CONCR, B_ASSUME, B_ASSERT, B_OBS, B_REACH, B_PARAM, B_LIVE, B_HMARK, B_HPEAK, B_FAIL, B_ITE, B_WATCH, B_ISSYM, B_EVENTS,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_NEWNT, B_NEWNTARR, B_DEL, B_DELARR,
    B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_STRNCMP, B_MEMCHR, B_STRCHR, B_STRCPY,
    B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_FSHL, B_FSHR,
    B_EXPECT, B_TRAP, B_TYPEID, B_STACKSAVE, B_NOP, B_RET0ARG, B_RETZERO,
    B_EXCALLOC, B_THROW, B_BCATCH, B_ECATCH, B_RETHROW, B_EXFREE, B_TERMINATE, B_ASSERTFAIL, B_EXIT,
    B_THROW_LOGIC, B_THROW_LEN, B_THROW_OOR, B_THROW_INV, B_THROW_BAD, B_THROW_RT, B_WHAT, B_ANYVAL, B_GACQ, B_GREL, B_TOUCH, B_FAILFROM, B_SPAWN, B_SWITCH, B_JOIN, B_TID, B_LOCK, B_UNLOCK, B_SNPRINTF, B_SPRINTF
};
static bool startsWith(const std::string &a, const char *b) { return a.compare(0, strlen(b), b) == 0; }
static int builtinId(const std::string &n)
{
    static const std::map<std::string, int> t = {
        {"fs_sym", B_SYM}, {"fs_u64", B_U64}, {"fs_range", B_RANGE}, {"fs_concretize", B_CONCR}, {"fs_assume", B_ASSUME}, {"fs_assert", B_ASSERT},
        {"fs_observe", B_OBS}, {"fs_reach", B_REACH}, {"fs_param", B_PARAM}, {"fs_heap_live", B_LIVE}, {"fs_heap_mark", B_HMARK}, {"fs_heap_peak", B_HPEAK}, {"fs_fail_malloc", B_FAIL}, {"fs_fail_from", B_FAILFROM}, {"fs_spawn", B_SPAWN}, {"fs_switch", B_SWITCH}, {"fs_join", B_JOIN}, {"fs_thread_id", B_TID}, {"pthread_mutex_lock", B_LOCK}, {"pthread_mutex_unlock", B_UNLOCK}, {"fs_ite_max", B_ITE},
        {"fs_watch", B_WATCH}, {"fs_is_symbolic", B_ISSYM}, {"fs_heap_events", B_EVENTS}, {"fs_any", B_ANYVAL}, {"fs_touch", B_TOUCH},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEWNT}, {"_ZnamRKSt9nothrow_t", B_NEWNTARR}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP},
        {"memchr", B_MEMCHR}, {"strchr", B_STRCHR}, {"strcpy", B_STRCPY},
        {"__cxa_allocate_exception", B_EXCALLOC}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BCATCH}, {"__cxa_end_catch", B_ECATCH}, {"__cxa_rethrow", B_RETHROW},
        {"__cxa_free_exception", B_EXFREE}, {"__cxa_get_exception_ptr", B_RET0ARG}, {"__clang_call_terminate", B_TERMINATE}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_TERMINATE},
        {"__assert_fail", B_ASSERTFAIL}, {"__cxa_pure_virtual", B_TERMINATE}, {"exit", B_EXIT}, {"_exit", B_EXIT},
        {"__cxa_atexit", B_RETZERO}, {"atexit", B_RETZERO}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP},
        {"__cxa_guard_acquire", B_GACQ}, {"__cxa_guard_release", B_GREL},
        {"printf", B_RETZERO}, {"fprintf", B_RETZERO}, {"puts", B_RETZERO}, {"putchar", B_RETZERO}, {"perror", B_NOP}, {"fputs", B_RETZERO}, {"snprintf", B_SNPRINTF}, {"sprintf", B_SPRINTF},
        {"_ZSt20__throw_length_errorPKc", B_THROW_LEN}, {"_ZSt19__throw_logic_errorPKc", B_THROW_LOGIC}, {"_ZSt17__throw_bad_allocv", B_THROW_BAD}, {"_ZSt28__throw_bad_array_new_lengthv", B_THROW_BAD},
        {"_ZSt20__throw_out_of_rangePKc", B_THROW_OOR}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_THROW_OOR}, {"_ZSt24__throw_invalid_argumentPKc", B_THROW_INV}, {"_ZSt21__throw_runtime_errorPKc", B_THROW_RT},
    };
    auto it = t.find(n);
    if (it != t.end()) return it->second;
    if (n.compare(0, 5, "llvm.") == 0) {
        static const std::pair<const char *, int> p[] = {
            {"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMCPY}, {"llvm.memset.", B_MEMSET}, {"llvm.ctlz.", B_CTLZ}, {"llvm.cttz.", B_CTTZ}, {"llvm.ctpop.", B_CTPOP}, {"llvm.bswap.", B_BSWAP},
            {"llvm.umin.", B_UMIN}, {"llvm.umax.", B_UMAX}, {"llvm.smin.", B_SMIN}, {"llvm.smax.", B_SMAX}, {"llvm.abs.", B_ABS},
            {"llvm.uadd.with.overflow", B_UADDO}, {"llvm.usub.with.overflow", B_USUBO}, {"llvm.umul.with.overflow", B_UMULO}, {"llvm.sadd.with.overflow", B_SADDO}, {"llvm.ssub.with.overflow", B_SSUBO}, {"llvm.smul.with.overflow", B_SMULO},
            {"llvm.threadlocal.address", B_RET0ARG}, {"llvm.fshl.", B_FSHL}, {"llvm.fshr.", B_FSHR}, {"llvm.expect.", B_EXPECT}, {"llvm.trap", B_TRAP}, {"llvm.ubsantrap", B_TRAP}, {"llvm.eh.typeid.for", B_TYPEID},
            {"llvm.stacksave", B_STACKSAVE}, {"llvm.stackrestore", B_NOP}, {"llvm.prefetch", B_NOP}};
        for (auto &q : p) if (startsWith(n, q.first)) return q.second;
        return B_NONE;
    }
    // iostream output: no effect on the computation
    if (startsWith(n, "_ZStlsI") || startsWith(n, "_ZNSolsE") || startsWith(n, "_ZSt4endlI") || startsWith(n, "_ZNSo5flush") || startsWith(n, "_ZNSo9_M_insert") || startsWith(n, "_ZSt16__ostream_insert") || startsWith(n, "_ZNSo5write") || startsWith(n, "_ZNSo3put"))
        return B_RET0ARG;
    // standard exception objects: contents are not modelled
    static const char *exc[] = {"16invalid_argument", "11logic_error", "12length_error", "12out_of_range", "12domain_error", "13runtime_error", "11range_error", "14overflow_error", "15underflow_error", "9exception", "9bad_alloc", "12system_error"};
    if (startsWith(n, "_ZNSt") || startsWith(n, "_ZNKSt"))
        for (auto x : exc) {
            std::string q = std::string(n[3] == 'K' ? "_ZNKSt" : "_ZNSt") + x;
            if (startsWith(n, q.c_str())) { std::string r = n.substr(q.size()); if (r[0] == 'C' || r[0] == 'D') return B_NOP; if (startsWith(r, "4what")) return B_WHAT; }
        }
    return B_NONE;
}
static bool failNow(State &s)
{
    if (s.failAlloc < 0) return false;
    if (s.failAlloc > 0) { s.failAlloc--; return false; }
    if (!s.failAll) s.failAlloc = -1;
    return true;
}
static V addV(V a, uint64_t k) { return a.e ? ve(mkBin(ADD, a.e, mkC(64, k))) : vc(a.c + k); }
static E regSym(State &s, unsigned w, const std::string &base)
{
    E e = internSym(w, base, true);
    s.inputs.push_back((uint32_t)e->c);
    return e;
}
static std::string occName(State &s, const std::string &n)
{
    int k = s.occ[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
static E cond1(const V &v, unsigned w) { E e = asE(v, w); return mkNot(mkBin(EQ, e, mkC(w, 0))); }

static void runBuiltin(State &s, const Ins &x, int id, std::vector<V> &A)
{
    switch (id) {
    case B_SYM: {
        uint64_t p = needConcrete(s, A[0], "fs_sym"), n = needConcrete(s, A[1], "fs_sym");
        std::string nm = occName(s, readCStr(s, A[2].c));
        uint32_t o; uint64_t off;
        if (n && !findObj(s, p, n, o, off)) violation(s, "harness", "fs_sym range");
        for (uint64_t i = 0; i < n; i++) { E e = regSym(s, 8, nm + "[" + std::to_string(i) + "]"); storeE(s, o, off + i, 1, e); }
        ret1(s, x, vc(0)); return;
    }
    case B_U64: { E e = regSym(s, 64, occName(s, readCStr(s, A[0].c))); ret1(s, x, ve(e)); return; }
    case B_ANYVAL: { V v = ve(freshAny(s, 64, "harness")); ret1(s, x, v); return; }
    case B_RANGE: {
        uint64_t lo = needConcrete(s, A[0], "range"), hi = needConcrete(s, A[1], "range");
        std::string nm = occName(s, readCStr(s, A[2].c));
        unsigned w = 1; while (w < 64 && (hi - lo) >> w) w++;
        if (hi == lo) { E e = regSym(s, 1, nm); addPc(s, mkNot(e)); if (evalE(e, s.model)) { s.model.v.resize(std::max<size_t>(s.model.v.size(), e->c + 1)); s.model.v[e->c] = 0; } ret1(s, x, vc(lo)); return; }
        E e = regSym(s, w, nm);
        E ok = mkBin(ULE, e, mkC(w, hi - lo));
        if (!isC(ok)) addPc(s, ok);
        ret1(s, x, ve(mkBin(ADD, mkZext(e, 64), mkC(64, lo))));
        return;
    }
    case B_CONCR: { V v = norm(s, A[0]); uint64_t r = v.e ? enumerate(s, v.e) : v.c; ret1(s, x, vc(r)); return; }
    case B_ASSUME: {
        E c = cond1(norm(s, A[0]), 32);
        if (isC(c)) { if (!c->c) { S.killed++; throw PathEnd(); } }
        else if (!evalE(c, s.model)) {
            Model m; int r = query(s, c, &m);
            if (r < 0) inconclusive("solver timeout on assumption");
            if (r == 0) { S.killed++; throw PathEnd(); }
            addPc(s, c); s.model = std::move(m);
        } else addPc(s, c);
        ret1(s, x, vc(0)); return;
    }
    case B_ASSERT: {
        if (optParams.count("noassert")) { ret1(s, x, vc(0)); return; } // memory safety only
        S.asserts++;
        E c = cond1(norm(s, A[0]), 32);
        if (isC(c)) { if (!c->c) violation(s, "assertion", readCStr(s, A[1].c)); }
        else {
            S.assertQueries++;
            if (!evalE(c, s.model)) violation(s, "assertion", readCStr(s, A[1].c));
            Model m; int r = query(s, mkNot(c), &m);
            if (r < 0) inconclusive("solver timeout on assertion " + readCStr(s, A[1].c));
            if (r == 1) violation(s, "assertion", readCStr(s, A[1].c), &m);
        }
        ret1(s, x, vc(0)); return;
    }
    case B_OBS: s.obs.push_back({internStr(readCStr(s, A[0].c)), A[1]}); ret1(s, x, vc(0)); return;
    case B_REACH: s.labels.insert(readCStr(s, A[0].c)); ret1(s, x, vc(0)); return;
    case B_PARAM: {
        std::string nm = readCStr(s, A[0].c);
        auto it = optParams.find(nm);
        ret1(s, x, vc(it != optParams.end() ? (uint64_t)it->second : A[1].c)); return;
    }
    case B_LIVE: ret1(s, x, vc(s.heapLive)); return;
    case B_HMARK: s.heapPeak = s.heapBytes; ret1(s, x, vc(s.heapBytes)); return;
    case B_HPEAK: ret1(s, x, vc(s.heapPeak)); return;
    case B_EVENTS: ret1(s, x, vc(s.heapEvents)); return;
    case B_FAILFROM: s.failAlloc = (int64_t)needConcrete(s, A[0], "fail"); s.failAll = true; ret1(s, x, vc(0)); return;
    case B_SPAWN: { // a second thread, not yet running
        uint64_t a = needConcrete(s, A[0], "thread");
        if (a < FUNC_BASE || (a - FUNC_BASE) / 16 >= funcByAddr.size() || !s.st2.empty() || s.thread2) violation(s, "harness", "fs_spawn");
        Func *F = funcByAddr[(a - FUNC_BASE) / 16];
        if (!F->decoded) decode(F);
        s.st2.emplace_back(); Frame &fr = s.st2.back(); fr.f = F; fr.pc = 0; fr.regs.resize(F->nregs); F->execd++;
        ret1(s, x, vc(0)); return;
    }
    case B_SWITCH: ret1(s, x, vc(0)); if (!s.st2.empty()) swapThreads(s); return;
    case B_JOIN: if (s.st2.empty()) ret1(s, x, vc(0)); else swapThreads(s); return;
    case B_TID: ret1(s, x, vc(s.thread2)); return;
    case B_LOCK: case B_GACQ: {
        uint64_t a = needConcrete(s, A[0], "lock");
        for (auto &l : s.locks) if (l.first == a) {
            if (l.second == s.thread2 || s.st2.empty()) violation(s, "deadlock", "a lock is taken twice");
            swapThreads(s); // wait: the other thread runs, this call is repeated later
            return;
        }
        if (id == B_GACQ) { V b = memLoad(s, A[0], 8); if (!b.e && b.c) { ret1(s, x, vc(0)); return; } } // finished while waiting
        s.locks.push_back({a, s.thread2});
        ret1(s, x, vc(id == B_GACQ)); return;
    }
    case B_UNLOCK: case B_GREL: {
        uint64_t a = needConcrete(s, A[0], "unlock");
        for (size_t i = 0; i < s.locks.size(); i++) if (s.locks[i].first == a) { s.locks.erase(s.locks.begin() + i); break; }
        if (id == B_GREL) memStore(s, A[0], 8, vc(1));
        ret1(s, x, vc(0)); return;
    }
    case B_FAIL: s.failAll = false; s.failAlloc = (int64_t)needConcrete(s, A[0], "fail"); ret1(s, x, vc(0)); return;
    case B_ITE: s.iteMax = A[0].c; ret1(s, x, vc(0)); return;
    case B_WATCH: s.watchLo = A[0].c; s.watchHi = A[1].c; ret1(s, x, vc(0)); return;
    case B_TOUCH: {
        V p = norm(s, A[0]), n = norm(s, A[1]);
        if (!n.e && !n.c) { ret1(s, x, vc(0)); return; }
        uint64_t a = p.e ? evalE(p.e, s.model) : p.c, k = n.e ? evalE(n.e, s.model) : n.c; uint32_t o; uint64_t off;
        if (!findObj(s, a, k, o, off)) { std::string kd, m = badAccess(s, a, k, RD, kd); violation(s, kd, m + " (range)"); }
        if (p.e || n.e) {
            E so = mkBin(SUB, asE(p, 64), mkC(64, objBase(o))), ne = asE(n, 64), sz = mkC(64, s.objs[o]->size);
            E ok = mkBin(AND, mkBin(ULE, ne, sz), mkBin(ULE, so, mkBin(SUB, sz, ne)));
            Model m; int r = query(s, mkNot(ok), &m);
            if (r < 0) inconclusive("solver timeout on range check");
            if (r == 1) { std::string kd, mm = badAccess(s, evalE(asE(p, 64), m), evalE(ne, m), RD, kd); violation(s, kd, mm + " (range)", &m); }
        }
        ret1(s, x, vc(0)); return;
    }
    case B_ISSYM: { V v = norm(s, A[0]); ret1(s, x, vc(v.e != nullptr)); return; }

    case B_MALLOC: case B_NEW: case B_NEWARR: case B_NEWNT: case B_NEWNTARR: case B_CALLOC: {
        V n = norm(s, A[0]);
        if (id == B_CALLOC) { V m = norm(s, A[1]); if (!n.e && !m.e) n = vc(n.c * m.c); else n = norm(s, ve(mkBin(MUL, asE(n, 64), asE(m, 64)))); }
        Kind k = id == B_NEW ? K_NEW : id == B_NEWARR || id == B_NEWNTARR ? K_NEWARR : id == B_NEWNT ? K_NEW : K_MALLOC;
        if (failNow(s)) {
            s.heapEvents++;
            if (id == B_NEW || id == B_NEWARR) { doThrow(s, "_ZTISt9bad_alloc"); return; }
            ret1(s, x, vc(0)); return;
        }
        if (n.e && optParams.count("arrays") && optParams["arrays"]) {
            Object *o = new Object; o->kind = k; o->ssize = n.e; o->al = mkABase(); o->name = "block of symbolic size";
            if (s.big.size() >= 8) inconclusive("too many symbolic-size blocks");
            s.big.emplace_back(o); s.heapLive++; s.heapEvents++;
            ret1(s, x, vc((uint64_t)(8 + s.big.size() - 1) << BIG_SHIFT)); return;
        }
        uint64_t c = n.e ? enumerate(s, n.e) : n.c;
        uint64_t p = doAlloc(s, c, k);
        if (!p && (id == B_NEW || id == B_NEWARR)) { doThrow(s, "_ZTISt9bad_alloc"); return; }
        if (p && id == B_CALLOC) setBytes(s, p, vc(0), c);
        ret1(s, x, vc(p)); return;
    }
    case B_REALLOC: {
        uint64_t p = needConcrete(s, A[0], "realloc"), n = needConcrete(s, A[1], "realloc");
        if (failNow(s)) { s.heapEvents++; ret1(s, x, vc(0)); return; }
        if (p && (p >> 32 >= s.objs.size() || !s.objs[p >> 32] || p != objBase(p >> 32) || s.objs[p >> 32]->freed || s.objs[p >> 32]->alias || s.objs[p >> 32]->kind != K_MALLOC)) violation(s, "bad-realloc", "realloc of a pointer that is not a live malloc block");
        uint64_t peak = s.heapPeak, q = doAlloc(s, n, K_MALLOC);
        if (q && p) { movePages(s, q >> 32, p >> 32); doFree(s, p, K_MALLOC); s.heapPeak = std::max(peak, s.heapBytes); } // counted as if grown in place
        ret1(s, x, vc(q)); return;
    }
    case B_FREE: doFree(s, needConcrete(s, A[0], "free"), K_MALLOC); ret1(s, x, vc(0)); return;
    case B_DEL: doFree(s, needConcrete(s, A[0], "delete"), K_NEW); ret1(s, x, vc(0)); return;
    case B_DELARR: doFree(s, needConcrete(s, A[0], "delete[]"), K_NEWARR); ret1(s, x, vc(0)); return;

    case B_MEMCPY: {
        uint64_t n = needConcrete(s, A[2], "memcpy"), d = needConcrete(s, A[0], "memcpy"), q = needConcrete(s, A[1], "memcpy");
        copyBytes(s, d, q, n); ret1(s, x, vc(d)); return;
    }
    case B_MEMSET: {
        uint64_t n = needConcrete(s, A[2], "memset"), d = needConcrete(s, A[0], "memset");
        setBytes(s, d, A[1], n); ret1(s, x, vc(d)); return;
    }
    case B_MEMCMP: case B_STRCMP: case B_STRNCMP: {
        uint64_t n = id == B_STRCMP ? 1ULL << 40 : needConcrete(s, A[2], "memcmp"), a = needConcrete(s, A[0], "memcmp"), b = needConcrete(s, A[1], "memcmp");
        // branch byte by byte, exactly as the library routine may
        for (uint64_t i = 0; i < n; i++) {
            V p = memLoad(s, vc(a + i), 8), q = memLoad(s, vc(b + i), 8);
            p = norm(s, p); q = norm(s, q);
            if (!p.e && !q.e) { if (p.c != q.c) { ret1(s, x, vc((uint32_t)(p.c < q.c ? -1 : 1))); return; } }
            else if (!decide(s, mkBin(EQ, asE(p, 8), asE(q, 8)))) { bool lt = decide(s, mkBin(ULT, asE(p, 8), asE(q, 8))); ret1(s, x, vc((uint32_t)(lt ? -1 : 1))); return; }
            if (id != B_MEMCMP) { if (!p.e ? p.c == 0 : decide(s, mkBin(EQ, p.e, mkC(8, 0)))) break; }
        }
        ret1(s, x, vc(0)); return;
    }
    case B_STRLEN: {
        uint64_t a = needConcrete(s, A[0], "strlen");
        for (uint64_t i = 0;; i++) {
            V p = norm(s, memLoad(s, vc(a + i), 8));
            if (!p.e ? p.c == 0 : decide(s, mkBin(EQ, p.e, mkC(8, 0)))) { ret1(s, x, vc(i)); return; }
        }
    }
    case B_MEMCHR: case B_STRCHR: {
        uint64_t a = needConcrete(s, A[0], "memchr"), n = id == B_MEMCHR ? needConcrete(s, A[2], "memchr") : ~0ULL;
        E c = mkExtract(asE(A[1], 32), 0, 8);
        for (uint64_t i = 0; i < n; i++) {
            V p = norm(s, memLoad(s, vc(a + i), 8));
            E eq = mkBin(EQ, asE(p, 8), c);
            if (decide(s, eq)) { ret1(s, x, vc(a + i)); return; }
            if (id == B_STRCHR && decide(s, mkBin(EQ, asE(p, 8), mkC(8, 0)))) break;
        }
        ret1(s, x, vc(0)); return;
    }
    case B_STRCPY: {
        uint64_t d = needConcrete(s, A[0], "strcpy"), q = needConcrete(s, A[1], "strcpy"), n = 0;
        for (;; n++) { V p = norm(s, memLoad(s, vc(q + n), 8)); if (!p.e ? p.c == 0 : decide(s, mkBin(EQ, p.e, mkC(8, 0)))) break; }
        copyBytes(s, d, q, n + 1); ret1(s, x, vc(d)); return;
    }

    case B_SNPRINTF: case B_SPRINTF: { // concrete arguments only
        unsigned a = id == B_SPRINTF ? 1 : 2;
        uint64_t d = needConcrete(s, A[0], "snprintf"), lim = id == B_SPRINTF ? ~0ULL : needConcrete(s, A[1], "snprintf");
        std::string f = readCStr(s, needConcrete(s, A[a++], "snprintf")), r;
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != '%') { r += f[i]; continue; }
            size_t b = i++;
            while (i < f.size() && strchr("-+ #0123456789.", f[i])) i++;
            std::string fl = f.substr(b, i - b); int l = 0;
            while (i < f.size() && strchr("hlzjt", f[i])) { l += f[i] == 'h' ? -1 : f[i] == 'l' ? 1 : 2; i++; }
            char c = i < f.size() ? f[i] : 0;
            if (c == '%') { r += '%'; continue; }
            if (!c || !strchr("diuxXcs", c) || a >= A.size()) inconclusive("snprintf format " + f);
            uint64_t v = needConcrete(s, A[a++], "snprintf argument");
            if (c == 's') {
                std::string t; uint64_t prec = ~0ULL; size_t dot = fl.find('.'); if (dot != std::string::npos) prec = strtoull(fl.c_str() + dot + 1, 0, 10);
                for (uint64_t k = 0; k < prec; k++) { V e = norm(s, memLoad(s, vc(v + k), 8)); uint64_t ch = e.e ? enumerate(s, e.e) : e.c; if (!ch) break; t += (char)ch; }
                fl = fl.substr(0, dot); uint64_t w = 0; bool left = fl.find('-') != std::string::npos; for (char q : fl) if (isdigit((unsigned char)q)) w = w * 10 + (q - '0');
                while (t.size() < w) t = left ? t + " " : " " + t;
                r += t;
            } else if (c == 'c') r += (char)v;
            else {
                int64_t sv = l <= -2 ? (int8_t)v : l == -1 ? (int16_t)v : l == 0 ? (int32_t)v : (int64_t)v; uint64_t uv = l <= -2 ? (uint8_t)v : l == -1 ? (uint16_t)v : l == 0 ? (uint32_t)v : v;
                char t[600]; bool sg = c == 'd' || c == 'i';
                if (sg) snprintf(t, sizeof t, (fl + "lld").c_str(), (long long)sv); else snprintf(t, sizeof t, (fl + "ll" + c).c_str(), (unsigned long long)uv);
                r += t;
            }
        }
        for (uint64_t k = 0; k < lim && k <= r.size(); k++) memStore(s, vc(d + k), 8, vc(k < r.size() && k + 1 < lim ? (uint8_t)r[k] : 0));
        ret1(s, x, vc((uint32_t)r.size())); return;
    }
    case B_CTLZ: case B_CTTZ: case B_CTPOP: {
        V v = norm(s, A[0]); unsigned w = x.w;
        if (!v.e) {
            uint64_t c = v.c & maskw(w), r;
            if (id == B_CTPOP) r = __builtin_popcountll(c);
            else if (!c) r = w;
            else r = id == B_CTLZ ? __builtin_clzll(c) - (64 - w) : __builtin_ctzll(c);
            ret1(s, x, vc(r)); return;
        }
        E r;
        if (id == B_CTPOP) { r = mkC(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(v.e, i, 1), w)); }
        else {
            r = mkC(w, w);
            if (id == B_CTLZ) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(v.e, i, 1), mkC(w, w - 1 - i), r);
            else for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(v.e, i, 1), mkC(w, i), r);
        }
        ret1(s, x, ve(r)); return;
    }
    case B_BSWAP: {
        E e = asE(A[0], x.w), r = nullptr;
        for (unsigned i = 0; i < x.w / 8; i++) { E b = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, b) : b; }
        ret1(s, x, ve(r)); return;
    }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        E a = asE(A[0], x.w), b = asE(A[1], x.w); E lt = mkBin(id == B_UMIN || id == B_UMAX ? ULT : SLT, a, b);
        ret1(s, x, ve(id == B_UMIN || id == B_SMIN ? mkIte(lt, a, b) : mkIte(lt, b, a))); return;
    }
    case B_ABS: { E a = asE(A[0], x.w); ret1(s, x, ve(mkIte(mkBin(SLT, a, mkC(x.w, 0)), mkBin(SUB, mkC(x.w, 0), a), a))); return; }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
        unsigned w = x.slotw[0]; E a = asE(A[0], w), b = asE(A[1], w), r, o;
        if (id == B_UADDO) { r = mkBin(ADD, a, b); o = mkBin(ULT, r, a); }
        else if (id == B_USUBO) { r = mkBin(SUB, a, b); o = mkBin(ULT, a, b); }
        else if (w <= 32) {
            bool sg = id >= B_SADDO;
            E A2 = sg ? mkSext(a, 64) : mkZext(a, 64), B2 = sg ? mkSext(b, 64) : mkZext(b, 64);
            E R = mkBin(id == B_SADDO ? ADD : id == B_SSUBO ? SUB : MUL, A2, B2);
            r = mkExtract(R, 0, w); o = mkNot(mkBin(EQ, R, sg ? mkSext(r, 64) : mkZext(r, 64)));
        } else if (id == B_UMULO) {
            r = mkBin(MUL, a, b);
            if (isC(a) && isC(b)) o = mkC(1, ((unsigned __int128)a->c * b->c) >> w != 0);
            else { E k = isC(a) ? a : b, y = isC(a) ? b : a; if (!isC(k)) inconclusive("symbolic overflow multiplication"); o = k->c ? mkBin(ULT, mkC(w, maskw(w) / k->c), y) : mkC(1, 0); }
        } else if (id == B_SADDO) { r = mkBin(ADD, a, b); o = mkBin(SLT, mkBin(AND, mkBin(XOR, r, a), mkBin(XOR, r, b)), mkC(w, 0)); }
        else if (id == B_SSUBO) { r = mkBin(SUB, a, b); o = mkBin(SLT, mkBin(AND, mkBin(XOR, a, b), mkBin(XOR, r, a)), mkC(w, 0)); }
        else inconclusive("64-bit signed overflow multiplication");
        retTo(s, x, {ve(r), ve(o)}); return;
    }
    case B_FSHL: case B_FSHR: {
        unsigned w = x.w; uint64_t k = needConcrete(s, A[2], "fsh") % w;
        if (!k) { ret1(s, x, id == B_FSHL ? A[0] : A[1]); return; }
        if (id == B_FSHR) k = w - k;
        ret1(s, x, ve(mkBin(OR, mkBin(SHL, asE(A[0], w), mkC(w, k)), mkBin(LSHR, asE(A[1], w), mkC(w, w - k))))); return;
    }
    case B_EXPECT: ret1(s, x, A[0]); return;
    case B_TRAP: violation(s, "trap", "trap executed");
    case B_TYPEID: { uint64_t a = A[0].c; ret1(s, x, vc((uint32_t)(a >> 32 ^ a))); return; }
    case B_STACKSAVE: ret1(s, x, vc(0)); return;
    case B_NOP: ret1(s, x, vc(0)); return;
    case B_RET0ARG: ret1(s, x, A[0]); return;
    case B_RETZERO: ret1(s, x, vc(0)); return;
    case B_WHAT: { uint64_t p = doAlloc(s, 8, K_EXC); setBytes(s, p, vc(0), 8); ret1(s, x, vc(p)); return; }

    case B_EXCALLOC: ret1(s, x, vc(doAlloc(s, needConcrete(s, A[0], "exc"), K_EXC))); return;
    case B_THROW: s.excPtr = A[0].c; s.excTi = A[1].c; unwind(s); return;
    case B_BCATCH: s.caught.push_back(A[0].c); s.caught.push_back(s.excTi); ret1(s, x, A[0]); return;
    case B_ECATCH: if (s.caught.size() >= 2) { s.caught.pop_back(); s.caught.pop_back(); } ret1(s, x, vc(0)); return;
    case B_RETHROW: if (s.caught.size() < 2) violation(s, "terminate", "rethrow without exception"); s.excTi = s.caught.back(); s.excPtr = s.caught[s.caught.size() - 2]; unwind(s); return;
    case B_EXFREE: ret1(s, x, vc(0)); return;
    case B_TERMINATE: violation(s, "abort", "program aborts");
    case B_ASSERTFAIL: violation(s, "abort", "assert() failed: " + readCStr(s, A[0].c));
    case B_EXIT: violation(s, "exit", "library calls exit()");
    case B_THROW_LOGIC: doThrow(s, "_ZTISt11logic_error"); return;
    case B_THROW_LEN: doThrow(s, "_ZTISt12length_error"); return;
    case B_THROW_OOR: doThrow(s, "_ZTISt12out_of_range"); return;
    case B_THROW_INV: doThrow(s, "_ZTISt16invalid_argument"); return;
    case B_THROW_BAD: doThrow(s, "_ZTISt9bad_alloc"); return;
    case B_THROW_RT: doThrow(s, "_ZTISt13runtime_error"); return;
    }
    inconclusive("builtin not implemented");
}
