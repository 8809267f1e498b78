// Native runtime of the harness intrinsics: replays one assignment found by the solver against
// the compiled code.  Compiled separately; allocation calls of the module are renamed to fsn_*.
//   usage: replay ENTRY INPUTS [PARAMS [HEAPFILL]]
//   INPUTS  name=hex;...        PARAMS  name=dec;...      HEAPFILL  seq:off=hex,...;  (stale heap bytes)
// exit: 0 finished, 41 assertion failed, 42 memory error (ASan), 43 assumption violated, 44 input missing, 45 allocation mismatch
#include "fs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <malloc.h>
#include <sys/mman.h>
#include <map>
#include <unordered_map>
#include <string>
#include <vector>
#include <new>
#include <exception>

extern "C" {
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
}
static std::map<std::string, uint64_t> *in, *par; static std::map<std::string, int> *occ;
static std::map<uint64_t, std::vector<std::pair<uint64_t, std::string>>> *fill;
static uint64_t live, seq, held, peak; static std::unordered_map<void *, size_t> *sizes; static int64_t failAt = -1; static int pat = -1;
static const void *wlo; static size_t wn;

[[noreturn]] static void quit(int c) { fflush(stdout); _exit(c); }
static std::string oname(const char *n) { int k = (*occ)[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static uint64_t input(const std::string &n)
{
    auto it = in->find(n);
    if (it == in->end()) { printf("MISSING %s\n", n.c_str()); quit(44); }
    return it->second;
}
static bool failAll;
static bool failNow() { if (failAt < 0) return false; if (failAt > 0) { failAt--; return false; } if (!failAll) failAt = -1; return true; }
static void stale(void *p, size_t from, size_t n)
{
    seq++;
    if (!p) return;
    uint8_t *b = (uint8_t *)p;
    if (n > (1u << 28)) return;
    if (pat >= 0) for (size_t i = from; i < n; i++) b[i] = pat < 256 ? (uint8_t)pat : (uint8_t)((i + seq) * 2654435761u >> 13);
    auto it = fill->find(seq);
    if (it != fill->end()) for (auto &f : it->second) for (size_t i = 0; i < f.second.size(); i++) if (f.first + i < n) b[f.first + i] = (uint8_t)f.second[i];
}
// blocks larger than the machine's memory (plain mode): address space only
static std::map<void *, size_t> *huge;
static bool isHuge(size_t n) { return n > (1ull << 30) && !__asan_region_is_poisoned; }
static void *hugeAlloc(size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    (*huge)[p] = n;
    return p;
}
static bool hugeFree(void *p)
{
    if (!huge || !p) return false;
    auto it = huge->find(p);
    if (it == huge->end()) return false;
    munmap(p, it->second);
    huge->erase(it);
    return true;
}
extern "C" {
static void *got(void *p, size_t n) { if (p) { live++; held += n; if (held > peak) peak = held; (*sizes)[p] = n; } return p; }
static void gone(void *p) { if (!p) return; live--; auto it = sizes->find(p); if (it != sizes->end()) { held -= it->second; sizes->erase(it); } }
void *fsn_malloc(size_t n) { if (failNow()) return NULL; void *p = isHuge(n) ? hugeAlloc(n) : malloc(n); got(p, n); stale(p, 0, n); return p; }
void *fsn_calloc(size_t n, size_t m) { if (failNow()) return NULL; void *p = calloc(n, m); got(p, n * m); seq++; return p; }
void *fsn_realloc(void *q, size_t n)
{
    if (failNow()) return NULL;
    if (!q) { void *p = malloc(n); got(p, n); stale(p, 0, n); return p; }
    size_t old = malloc_usable_size(q), was = peak;
    if (!__asan_region_is_poisoned) { gone(q); void *p = realloc(q, n); got(p, n); seq++; return p; }
    void *p = malloc(n);
    if (!p) { seq++; return NULL; }
    memcpy(p, q, old < n ? old : n);
    stale(p, old < n ? old : n, n);
    gone(q); got(p, n); peak = held > was ? held : was;
    free(realloc(q, 1)); // checks that q is a live malloc block
    return p;
}
void fsn_free(void *p) { gone(p); if (!hugeFree(p)) free(p); }
void *fsn__Znwm(size_t n) { if (failNow()) throw std::bad_alloc(); void *p = ::operator new(n); got(p, n); stale(p, 0, n); return p; }
void *fsn__Znam(size_t n) { if (failNow()) throw std::bad_alloc(); void *p = isHuge(n) ? hugeAlloc(n) : ::operator new[](n); got(p, n); stale(p, 0, n); return p; }
void fsn__ZdlPv(void *p) { gone(p); ::operator delete(p); }
void fsn__ZdaPv(void *p) { gone(p); if (!hugeFree(p)) ::operator delete[](p); }
void *fsn__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t &) { if (failNow()) return NULL; void *p = got(::operator new(n, std::nothrow), n); stale(p, 0, n); return p; }
void *fsn__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &) { if (failNow()) return NULL; void *p = got(::operator new[](n, std::nothrow), n); stale(p, 0, n); return p; }
void fsn__ZdlPvm(void *p, size_t n) { gone(p); ::operator delete(p, n); }
void fsn__ZdaPvm(void *p, size_t n) { gone(p); if (!hugeFree(p)) ::operator delete[](p, n); }

void fs_sym(void *p, uint64_t n, const char *name) { std::string b = oname(name); for (uint64_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)input(b + "[" + std::to_string(i) + "]"); }
uint64_t fs_u64(const char *name) { return input(oname(name)); }
uint64_t fs_range(uint64_t lo, uint64_t hi, const char *name) { uint64_t v = lo + input(oname(name)); if (v < lo || v > hi) { printf("RANGE %s\n", name); quit(43); } return v; }
uint64_t fs_concretize(uint64_t v) { return v; }
uint64_t fs_any(void) { return 0; }
void fs_assume(int c) { if (!c) { printf("ASSUME\n"); quit(43); } }
void fs_assert(int c, const char *msg) { if (!c && !par->count("noassert")) { printf("ASSERT %s\n", msg); quit(41); } }
void fs_observe(const char *name, uint64_t v) { printf("%s=%llx;", name, (unsigned long long)v); }
void fs_reach(const char *) {}
long fs_param(const char *name, long def) { auto it = par->find(name); return it == par->end() ? def : (long)it->second; }
uint64_t fs_heap_live(void) { return live; }
uint64_t fs_heap_mark(void) { return peak = held; }
uint64_t fs_heap_peak(void) { return peak; }
void fs_fail_malloc(int64_t k) { failAt = k; failAll = false; }
void fs_fail_from(int64_t k) { failAt = k; failAll = true; }
// two threads that run in turn
static pthread_mutex_t tmx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t tcv = PTHREAD_COND_INITIALIZER;
static int turn; static bool other; static __thread int me; static pthread_t thr;
static void give(int t) { pthread_mutex_lock(&tmx); turn = t; pthread_cond_broadcast(&tcv); pthread_mutex_unlock(&tmx); }
static void await(int t) { pthread_mutex_lock(&tmx); while (turn != t) pthread_cond_wait(&tcv, &tmx); pthread_mutex_unlock(&tmx); }
static void *fs_trampoline(void *f) { me = 1; await(1); try { ((void (*)())f)(); } catch (...) { printf("UNCAUGHT\n"); quit(46); } other = false; give(0); return NULL; }
void fs_spawn(void (*f)(void)) { other = true; if (pthread_create(&thr, NULL, fs_trampoline, (void *)f)) quit(2); }
void fs_switch(void) { if (!other && me == 0) return; give(!me); await(me); }
void fs_join(void) { while (other) fs_switch(); pthread_join(thr, NULL); }
int fs_thread_id(void) { return me; }
int fsn_pthread_mutex_lock(pthread_mutex_t *m) { while (pthread_mutex_trylock(m)) fs_switch(); return 0; }
int fsn_pthread_mutex_unlock(pthread_mutex_t *m) { return pthread_mutex_unlock(m); }
static std::vector<void *> guards; // initialisations in progress
int fsn___cxa_guard_acquire(char *g) { for (;;) { if (*g) return 0; bool busy = false; for (void *x : guards) busy = busy || x == g; if (!busy) { guards.push_back(g); return 1; } fs_switch(); } }
void fsn___cxa_guard_release(char *g) { *g = 1; for (size_t i = 0; i < guards.size(); i++) if (guards[i] == g) { guards.erase(guards.begin() + i); break; } }
void fsn___cxa_guard_abort(char *g) { for (size_t i = 0; i < guards.size(); i++) if (guards[i] == g) { guards.erase(guards.begin() + i); break; } }
void fs_ite_max(unsigned) {}
void fs_watch(const void *lo, const void *hi)
{
    if (!__asan_poison_memory_region) return;
    if (lo == hi) { if (wn) __asan_unpoison_memory_region(wlo, wn); wn = 0; }
    else { wlo = lo; wn = (const char *)hi - (const char *)lo; __asan_poison_memory_region(lo, wn); }
}
void fs_touch(const void *p, uint64_t n)
{
    if (n && __asan_region_is_poisoned && n < (1ULL << 32) && __asan_region_is_poisoned((void *)p, n)) { printf("TOUCH\n"); quit(42); }
}
int fs_is_symbolic(uint64_t) { return 0; }
}
static void parse(const char *t, std::map<std::string, uint64_t> &m, int base)
{
    std::string s(t);
    for (size_t i = 0; i < s.size();) {
        size_t e = s.find(';', i); if (e == std::string::npos) e = s.size();
        size_t q = s.rfind('=', e);
        if (q != std::string::npos && q >= i) m[s.substr(i, q - i)] = base == 16 ? strtoull(s.c_str() + q + 1, 0, 16) : (uint64_t)strtoll(s.c_str() + q + 1, 0, 0);
        i = e + 1;
    }
}
static std::string slurp(const char *a) // literal, or @file
{
    if (a[0] != '@') return a;
    std::string r; FILE *f = fopen(a + 1, "r"); if (!f) return r;
    char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
    fclose(f);
    while (!r.empty() && (r.back() == '\n')) r.pop_back();
    return r;
}
int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    in = new std::map<std::string, uint64_t>; par = new std::map<std::string, uint64_t>; occ = new std::map<std::string, int>;
    fill = new std::map<uint64_t, std::vector<std::pair<uint64_t, std::string>>>; huge = new std::map<void *, size_t>; sizes = new std::unordered_map<void *, size_t>;
    parse(slurp(argv[2]).c_str(), *in, 16);
    if (argc > 3) parse(slurp(argv[3]).c_str(), *par, 10);
    if (argc > 4) { // seq:off=hexbytes;
        std::string s = slurp(argv[4]);
        for (size_t i = 0; i < s.size();) {
            size_t e = s.find(';', i); if (e == std::string::npos) e = s.size();
            size_t c = s.find(':', i), q = s.find('=', i);
            if (c < e && q < e) {
                std::string b;
                for (size_t k = q + 1; k + 1 < e; k += 2) b += (char)strtoul(s.substr(k, 2).c_str(), 0, 16);
                (*fill)[strtoull(s.c_str() + i, 0, 10)].push_back({strtoull(s.c_str() + c + 1, 0, 10), b});
            }
            i = e + 1;
        }
    }
    if (getenv("FS_FILL")) pat = atoi(getenv("FS_FILL"));
    void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) { printf("NOENTRY\n"); return 2; }
    live = 0; seq = 0; held = peak = 0;
    try { f(); }
    catch (std::exception &e) { printf("UNCAUGHT %s\n", e.what()); quit(46); }
    catch (...) { printf("UNCAUGHT\n"); quit(46); }
    quit(0);
}
