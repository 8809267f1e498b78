// C16: split-stream integers
#include "fs.h"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include <stdlib.h>

static int64_t sx(uint64_t v, unsigned w) { return (int64_t)(v << (64 - w)) >> (64 - w); }
template <class S, class G> static void round_trip(unsigned w, uint64_t N, S set, G get)
{
    // previous content arbitrary (uninitialised); one store, every element checked
    fs_ite_max(N);
    int64_t v = sx(fs_u64("v"), w), u = sx(fs_u64("u"), w);
    uint64_t i = fs_range(0, N - 1, "i"), j = fs_range(0, N - 1, "j");
    fs_assume(i != j);
    set(j, u);
    int64_t old[8];
    for (uint64_t k = 0; k < N; k++) old[k] = (int64_t)get(k);
    set(i, v);
    fs_assert((int64_t)get(i) == v, "the value stored is the value read");
    fs_assert((int64_t)get(j) == u, "another element keeps its value");
    for (uint64_t k = 0; k < N; k++) { int ok = (k == i) | ((int64_t)get(k) == old[k]); fs_assert(ok, "all other elements keep their values"); }
    set(i, ~v);
    fs_assert((int64_t)get(i) == ~v, "the complement survives");
    fs_assert(~(int64_t)get(i) == v, "the complement of the complement is the value");
    fs_observe("v", (uint64_t)get(i));
    fs_reach("compared");
}
static uint32_t *L; static uint16_t *M; static int8_t *U8; static int16_t *U16;
static void s40(uint64_t i, int64_t v) { flbwt::set_40bit_value(L, U8, i, v); }
static int64_t g40(uint64_t i) { return (int64_t)flbwt::get_40bit_value(L, U8, i); }
static void s48(uint64_t i, int64_t v) { flbwt::set_48bit_value(L, U16, i, v); }
static int64_t g48(uint64_t i) { return (int64_t)flbwt::get_48bit_value(L, U16, i); }
static void s56(uint64_t i, int64_t v) { flbwt::set_56bit_value(L, M, U8, i, v); }
static int64_t g56(uint64_t i) { return (int64_t)flbwt::get_56bit_value(L, M, U8, i); }

static void with_size(uint64_t N)
{ // blocks of exactly N elements
    L = (uint32_t *)malloc(N * 4); M = (uint16_t *)malloc(N * 2); U8 = (int8_t *)malloc(N); U16 = (int16_t *)malloc(N * 2);
}
extern "C" void h_split()
{
    uint64_t N = 4;
    with_size(N);
    switch (fs_choose(0, 2, "repr")) {
    case 0: round_trip(40, N, s40, g40); break;
    case 1: round_trip(48, N, s48, g48); break;
    default: round_trip(56, N, s56, g56); break;
    }
    free(L); free(M); free(U8); free(U16);
}
// indices beyond 2^31 and 2^32: elements do not alias
extern "C" void h_split_big()
{
    static const uint64_t at[] = {0, 1, 0x7fffffff, 0x80000000ULL, 0x80000001ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x17fffffffULL};
    uint64_t N = 0x180000000ULL;
    with_size(N);
    uint64_t a = fs_choose(0, 8, "a"), b = fs_choose(0, 8, "b");
    fs_assume(a != b);
    unsigned r = (unsigned)fs_choose(0, 2, "repr"), w = r == 0 ? 40 : r == 1 ? 48 : 56;
    int64_t v = sx(fs_u64("v"), w), u = sx(fs_u64("u"), w);
    void (*set)(uint64_t, int64_t) = r == 0 ? s40 : r == 1 ? s48 : s56;
    int64_t (*get)(uint64_t) = r == 0 ? g40 : r == 1 ? g48 : g56;
    set(at[b], u); set(at[a], v);
    fs_assert(get(at[a]) == v, "the value stored is the value read");
    fs_assert(get(at[b]) == u, "another element keeps its value");
    free(L); free(M); free(U8); free(U16);
    fs_reach("compared");
}
