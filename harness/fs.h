// Interface between harnesses and (a) the symbolic executor, (b) the native replay runtime.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void fs_sym(void *p, uint64_t n, const char *name);              // n symbolic bytes
uint64_t fs_u64(const char *name);                               // symbolic 64-bit word
uint64_t fs_range(uint64_t lo, uint64_t hi, const char *name);   // symbolic value in [lo,hi]
uint64_t fs_concretize(uint64_t v);                              // case split over all feasible values
uint64_t fs_any(void);                                           // unconstrained value, not an input
void fs_assume(int c);
void fs_assert(int c, const char *msg);
void fs_observe(const char *name, uint64_t v);                   // compared against the native run
void fs_reach(const char *label);                                // reachability witness
long fs_param(const char *name, long def);                       // bound chosen by the driver
uint64_t fs_heap_live(void);                                     // live heap blocks
uint64_t fs_heap_mark(void);                                     // restarts the peak; bytes in live heap blocks
uint64_t fs_heap_peak(void);                                     // largest number of bytes held since the mark
void fs_fail_malloc(int64_t k);                                  // k-th allocation from now fails (-1: never)
void fs_fail_from(int64_t k);                                    // the k-th allocation and all later ones fail
void fs_spawn(void (*f)(void));                                  // creates a second thread; it runs when switched to
void fs_switch(void);                                            // the other thread runs, if there is one
void fs_join(void);                                              // the second thread runs to its end
int fs_thread_id(void);                                          // 0 or 1
void fs_ite_max(unsigned n);                                     // largest table read/written without case split
void fs_watch(const void *lo, const void *hi);                   // accesses inside are violations
void fs_touch(const void *p, uint64_t n);                        // [p,p+n) must be accessible
int fs_is_symbolic(uint64_t v);
}
static inline uint64_t fs_choose(uint64_t lo, uint64_t hi, const char *name) { return fs_concretize(fs_range(lo, hi, name)); }
