#include "texts.h"
#include "flbwt.hpp"
#include <stdexcept>

static void release(flbwt::BWT_result *r) { delete[] r->BWT; free(r); }
static void observe(const flbwt::BWT_result *r, uint64_t n)
{
    uint64_t h = 1469598103934665603ULL;
    for (uint64_t i = 0; i <= n; i++) if (i != r->last) h = (h ^ r->BWT[i]) * 1099511628211ULL;
    fs_observe("last", r->last);
    fs_observe("hash", h);
}

// C01 (also C22, C20): the transform is the one the definition gives
extern "C" void h_bwt()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, false);
    fs_assert(r != NULL && r->BWT != NULL, "a result is returned");
    if (n <= 24) {
        uint64_t sa[32];
        oracle_sort(T, n, sa);
        for (uint64_t k = 0; k <= n; k++) {
            if (sa[k] == 0) { fs_assert(r->last == k, "last is the row of the whole string"); continue; }
            fs_assert(r->BWT[k] == T[sa[k] - 1], "BWT[k] is the byte before the k-th smallest suffix");
        }
    } else {
        fs_assert(r->last >= 1 && r->last <= n, "last is the row of the whole string");
        fs_assert(inverts_to(r->BWT, r->last, T, n), "BWT is the transform of the input");
    }
    fs_reach("transform compared");
    observe(r, n);
    release(r);
    free(T);
}
// C02: index range and invertibility
extern "C" void h_inv()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, false);
    fs_assert(r != NULL && r->BWT != NULL, "a result is returned");
    fs_assert(r->last >= 1 && r->last <= n, "index lies in 1..n");
    fs_assert(inverts_to(r->BWT, r->last, T, n), "the inverse transform reproduces the input");
    fs_reach("inverted");
    observe(r, n);
    release(r);
    free(T);
}
// C06: memory safety only (every access is checked by the executor)
extern "C" void h_mem()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    bool f = fs_choose(fs_param("freeT", 0), 1, "free_T");
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, f);
    fs_reach("returned");
    fs_assert(r != NULL, "a result is returned");
    // every row may be read
    for (uint64_t i = 0; i <= n; i++) { volatile uint8_t x = r->BWT[i]; (void)x; }
    observe(r, n);
    release(r);
    if (!f) free(T);
}
// C07: ownership
extern "C" void h_own()
{
    uint64_t n;
    uint64_t base = fs_heap_live();
    uint8_t *T = make_text(&n);
    fs_assert(fs_heap_live() == base + 1, "harness");
    uint8_t *copy = (uint8_t *)malloc(n + 1);
    memcpy(copy, T, n + 1);
    bool f = fs_choose(0, 1, "free_T");
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, f);
    uint64_t live = fs_heap_live() - base;
    if (f) fs_assert(live == 3, "with free_T the input is released and only the result record and its array remain");
    else {
        fs_assert(live == 4, "without free_T the input stays and only the result record and its array are added");
        for (uint64_t i = 0; i <= n; i++) fs_assert(T[i] == copy[i], "without free_T no input byte is modified");
    }
    observe(r, n);
    delete[] r->BWT; // kind-checked
    free(r);
    if (!f) free(T);
    free(copy);
    fs_assert(fs_heap_live() == base, "nothing else is retained");
    fs_reach("ownership checked");
}
// C08: rejected parameters
extern "C" void h_params()
{
    uint64_t kind = fs_choose(0, 3, "kind");
    bool f = fs_choose(0, 1, "free_T");
    uint64_t n = fs_u64("n");
    uint8_t *T = (uint8_t *)malloc(3);
    fs_sym(T, 3, "T");
    uint8_t c[3] = {T[0], T[1], T[2]};
    uint64_t live = fs_heap_live();
    int how = 0;
    if (kind == 3) { // valid
        n = fs_concretize(n % 2 + 1);
        restrict_bytes(T, 3, 9);
        T[n] = 0;
        uint8_t *U = (uint8_t *)malloc(3);
        memcpy(U, T, 3);
        flbwt::BWT_result *r = NULL;
        try { r = flbwt::bwt_string(U, n, f); } catch (...) { how = 1; }
        fs_assert(how == 0, "valid parameters are accepted");
        release(r);
        if (!f) free(U);
        free(T);
        fs_reach("accepted");
        return;
    }
    uint8_t *arg = kind == 0 ? (uint8_t *)NULL : T;
    if (kind != 0) n = 0;
    if (kind == 2) { arg = NULL; n = 0; }
    if (kind == 1) fs_watch(T, T + 3);
    try { flbwt::bwt_string(arg, n, f); }
    catch (std::invalid_argument &) { how = 1; }
    catch (...) { how = 2; }
    fs_watch(0, 0);
    fs_assert(how == 1, "invalid parameters throw std::invalid_argument");
    fs_assert(fs_heap_live() == live, "a rejected call allocates and releases nothing");
    for (int i = 0; i < 3; i++) fs_assert(T[i] == c[i], "a rejected call does not write the input");
    free(T);
    fs_reach("rejected");
}
// C09: the result is a function of the text: call history and memory content do not matter
extern "C" void h_det()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    uint64_t hist = fs_param("umax", 0) ? 4 : fs_choose(0, 3, "history");
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, false);
    if (hist == 1) { try { flbwt::bwt_string(NULL, n, true); } catch (...) {} try { flbwt::bwt_string(T, 0, true); } catch (...) {} }
    if (hist == 2) {
        static const char w[] = "xyxxyzzyxyzxzyxyyzxyxzyxyxyxyzyzzyxxyzyxyzxyzxzyxyzxxxyyxyzyxyzyx";
        uint8_t *U = (uint8_t *)malloc(sizeof w);
        memcpy(U, w, sizeof w);
        release(flbwt::bwt_string(U, sizeof w - 1, true));
    }
    if (hist == 4) { // any other text
        uint64_t k = fs_choose(1, fs_param("umax", 4), "k");
        uint8_t *U = (uint8_t *)malloc(k + 1);
        fs_sym(U, k, "U");
        U[k] = 0;
        restrict_bytes(U, k, fs_param("alpha", 0));
        release(flbwt::bwt_string(U, k, true));
    }
    uint8_t *V = (uint8_t *)malloc(n + 1);
    memcpy(V, T, n + 1);
    if (hist == 3) { // different heap layout and stale content
        uint8_t *x[8];
        for (int i = 0; i < 8; i++) { x[i] = (uint8_t *)malloc(600 + 512 * i); memset(x[i], 0xA5 + i, 600 + 512 * i); }
        for (int i = 0; i < 8; i++) free(x[i]);
    }
    flbwt::BWT_result *q = flbwt::bwt_string(V, n, true);
    fs_assert(r->last == q->last, "the index is the same on every call");
    for (uint64_t i = 0; i <= n; i++) if (i != r->last) fs_assert(r->BWT[i] == q->BWT[i], "the transform is the same on every call");
    // and equals the definition, whatever uninitialised memory held
    if (n <= 24) {
        uint64_t sa[32];
        oracle_sort(T, n, sa);
        for (uint64_t k = 0; k <= n; k++) {
            if (sa[k] == 0) { fs_assert(r->last == k, "last depends on the text only"); continue; }
            fs_assert(r->BWT[k] == T[sa[k] - 1], "BWT depends on the text only");
        }
    }
    observe(r, n);
    release(r); release(q);
    free(T);
    fs_reach("compared");
}

// C08: valid parameters are never rejected
extern "C" void h_accept()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    flbwt::BWT_result *r = NULL;
    int how = 0;
    bool f = fs_choose(0, 1, "free_T");
    try { r = flbwt::bwt_string(T, n, f); } catch (...) { how = 1; }
    fs_assert(how == 0, "valid parameters are accepted");
    fs_assert(r != NULL, "a result is returned");
    release(r);
    if (!f) free(T);
    fs_reach("accepted");
}
// C08: no length is rejected (the call ends where the decomposition would start)
struct FsAccepted {};
extern "C" void h_accept_len()
{
    uint64_t n = fs_range(1, 1ULL << 58, "n");
    bool f = fs_choose(0, 1, "free_T");
    uint8_t *T = (uint8_t *)malloc(16);
    int how = 0;
    try { flbwt::bwt_string(T, n, f); } catch (FsAccepted &) { fs_reach("accepted"); } catch (std::invalid_argument &) { how = 1; } catch (...) { how = 2; }
    fs_assert(how == 0, "valid parameters are accepted");
    fs_observe("how", how);
}

// C26: memory runs out at any allocation of the call, once or for good
extern "C" void h_oom()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    uint8_t *copy = (uint8_t *)malloc(n + 1);
    memcpy(copy, T, n + 1);
    bool f = fs_choose(0, 1, "free_T"), all = fs_param("tie", 0) ? f : fs_choose(0, 1, "for_good");
    uint64_t k = fs_choose(fs_param("kmin", 0), fs_param("kmax", 900), "k") * fs_param("kstep", 1);
    flbwt::BWT_result *r = NULL;
    int how = 0;
    if (all) fs_fail_from((int64_t)k); else fs_fail_malloc((int64_t)k);
    try { r = flbwt::bwt_string(T, n, f); } catch (std::exception &) { how = 1; } catch (...) { how = 2; }
    fs_fail_malloc(-1);
    fs_assert(how != 2, "lack of memory is reported by a standard exception");
    if (!f) for (uint64_t i = 0; i <= n; i++) fs_assert(T[i] == copy[i], "without free_T no input byte is modified");
    if (how == 0) {
        fs_assert(r != NULL && r->BWT != NULL, "a call that returns has a result");
        fs_assert(r->last >= 1 && r->last <= n && inverts_to(r->BWT, r->last, copy, n), "a call that returns has the right result");
        release(r);
        fs_reach("enough memory");
    } else {
        fs_reach("reported");
        uint8_t *U = (uint8_t *)malloc(n + 1);
        memcpy(U, copy, n + 1);
        r = flbwt::bwt_string(U, n, true);
        fs_assert(r->last >= 1 && r->last <= n && inverts_to(r->BWT, r->last, copy, n), "the next call is not affected");
        release(r);
    }
    if (!f) free(T);
    free(copy);
    fs_observe("how", how);
}
// C27: two calls overlap: threads change at any of the inserted points, at most a given number of times
extern "C" void (*fsw_on_yield)(uint64_t);
static uint8_t *g_ut; static uint64_t g_un; static long g_left; static bool g_end; static uint16_t g_seen_yield[2][4096];
static void second()
{
    uint8_t *U = (uint8_t *)malloc(g_un + 1);
    memcpy(U, g_ut, g_un + 1);
    flbwt::BWT_result *q = flbwt::bwt_string(U, g_un, true);
    fs_assert(q->last >= 1 && q->last <= g_un && inverts_to(q->BWT, q->last, g_ut, g_un), "the other call has its own result");
    release(q);
    g_left = 0;
}
static void on_yield(uint64_t id)
{
    if (g_left <= 0 || g_end) return;
    uint64_t k = ++g_seen_yield[fs_thread_id()][id & 4095];
    if (k > (uint64_t)fs_param("firsts", 2) && k % fs_param("every", 40) != 0) return;
    if (!fs_choose(0, 1, "preempt")) return;
    g_left--;
    fs_reach(g_left == fs_param("switches", 1) - 1 ? "preempted" : "preempted again");
    fs_switch();
}
extern "C" void h_overlap()
{
    static const char *const U[] = {"cabacbcab", "zyxzyxa", "bbbbbb", "a", "acabacabadacab"};
    uint64_t n, base = fs_heap_live();
    uint8_t *T = make_text(&n);
    const char *u = U[fs_choose(fs_param("ulo", 0), fs_param("uhi", 0), "other")];
    g_un = strlen(u); g_ut = (uint8_t *)malloc(g_un + 1); memcpy(g_ut, u, g_un + 1);
    g_left = fs_param("switches", 1);
    fsw_on_yield = on_yield;
    fs_spawn(second);
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, false);
    fs_reach(g_left < fs_param("switches", 1) ? "overlapped" : "not overlapped");
    g_end = true;
    fs_join();
    fsw_on_yield = 0;
    fs_assert(r->last >= 1 && r->last <= n && inverts_to(r->BWT, r->last, T, n), "a call that is overlapped has its own result");
    release(r);
    free(T); free(g_ut);
    fs_assert(fs_heap_live() == base, "nothing is retained");
}

// C24: time (executed basic blocks and bytes moved) and space (largest number of heap bytes) against linear bounds
extern "C" { extern uint64_t fsw_count, fsw_limit; }
static uint64_t distinct_substrings(const uint8_t *T, uint64_t n)
{
    uint64_t m = 1, D = 0, end = n;
    while (m < 2 * n + 2) m *= 2;
    uint64_t *set = (uint64_t *)calloc(m, 8);
    bool S = false;
    for (uint64_t k = n; k-- > 1;) { // k is S* when it is S and k-1 is L; text from there to the next S* (inclusive)
        S = k + 1 == n ? false : T[k] < T[k + 1] || (T[k] == T[k + 1] && S);
        if (!S || T[k - 1] <= T[k]) continue;
        uint64_t h = 1469598103934665603ULL;
        for (uint64_t i = k; i <= end && i < n; i++) h = (h ^ T[i]) * 1099511628211ULL;
        h = (h ^ (end - k)) * 1099511628211ULL | 1;
        uint64_t j = h >> 20 & (m - 1);
        while (set[j] && set[j] != h) j = (j + 1) & (m - 1);
        if (!set[j]) { set[j] = h; D++; }
        end = k;
    }
    free(set);
    return D;
}
extern "C" void h_linear()
{
    uint64_t n, d = 0;
    uint8_t *T = make_text(&n);
    uint8_t seen[256] = {0};
    for (uint64_t i = 0; i < n; i++) { T[i] = (uint8_t)fs_concretize(T[i]); seen[T[i]] = 1; }
    for (int i = 0; i < 256; i++) d += seen[i];
    uint64_t D = distinct_substrings(T, n), ht = fs_param("htsize", 67777);
    uint64_t mark = fs_heap_mark();
    fsw_count = 0;
    uint64_t lim = fsw_limit = 600 * n + 600 * D + 60 * D * D / ht + 20 * ht + 500000;
    flbwt::BWT_result *r = flbwt::bwt_string(T, n, false);
    fsw_limit = -1;
    uint64_t steps = fsw_count, peak = fs_heap_peak() - mark;
    fs_assert(steps <= lim, "the number of steps stays within its linear bound");
    fs_assert(2 * peak <= 7 * n + 24000 * d + 1600 * D + 48 * ht + 140000, "the space used is at most 3.5 bytes per byte, 800 per distinct S* substring, 12000 per byte value and a constant");
    fs_observe("peak", peak); fs_observe("n", n); fs_observe("d", d); fs_observe("D", D);
    fs_reach("measured");
    release(r);
    free(T);
}
