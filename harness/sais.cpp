// C15, C11: the five suffix sorters
#include "fs.h"
#include "packed_array.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include <stdlib.h>

// element 0 of the packed text is skipped by the sorters
static void sort_with(unsigned w, uint8_t *raw, uint64_t n, uint64_t k, uint8_t cs, uint64_t *out)
{
    if (w == 32) {
        int32_t *SA = new int32_t[n];
        flbwt::sais_32bit(raw, SA, 0, n, k, cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (uint64_t)SA[i];
        delete[] SA;
    } else if (w == 40) {
        uint32_t *L = new uint32_t[n]; int8_t *U = new int8_t[n];
        flbwt::sais_40bit(raw, NULL, NULL, L, U, 0, n, k, cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (uint64_t)flbwt::get_40bit_value(L, U, i);
        delete[] L; delete[] U;
    } else if (w == 48) {
        uint32_t *L = new uint32_t[n]; int16_t *U = new int16_t[n];
        flbwt::sais_48bit(raw, NULL, NULL, L, U, 0, n, k, cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (uint64_t)flbwt::get_48bit_value(L, U, i);
        delete[] L; delete[] U;
    } else if (w == 56) {
        uint32_t *L = new uint32_t[n]; uint16_t *M = new uint16_t[n]; int8_t *U = new int8_t[n];
        flbwt::sais_56bit(raw, NULL, NULL, NULL, L, M, U, 0, n, k, cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (uint64_t)flbwt::get_56bit_value(L, M, U, i);
        delete[] L; delete[] M; delete[] U;
    } else {
        int64_t *SA = new int64_t[n];
        flbwt::sais_64bit(raw, SA, 0, n, k, cs);
        for (uint64_t i = 0; i < n; i++) out[i] = (uint64_t)SA[i];
        delete[] SA;
    }
}
static bool less(const uint64_t *t, uint64_t n, uint64_t a, uint64_t b)
{
    while (a < n && b < n) { if (t[a] != t[b]) return t[a] < t[b]; a++; b++; }
    return a == n; // unreachable for distinct suffixes: the last value is unique
}
// SA is the suffix array: a permutation, adjacent suffixes increasing.  Linear-time form.
static void check_sa(const uint64_t *t, uint64_t n, const uint64_t *sa, uint64_t w)
{
    uint64_t *rank = (uint64_t *)malloc((n + 1) * sizeof *rank);
    for (uint64_t i = 0; i <= n; i++) rank[i] = ~0ULL;
    int perm = 1;
    for (uint64_t i = 0; i < n; i++) {
        if (sa[i] >= n || rank[sa[i]] != ~0ULL) { perm = 0; break; }
        rank[sa[i]] = i + 1;
    }
    fs_assert(perm, "the output is a permutation of the positions");
    rank[n] = 0;
    int ord = 1;
    for (uint64_t i = 0; i + 1 < n; i++) {
        uint64_t a = sa[i], b = sa[i + 1];
        if (t[a] > t[b] || (t[a] == t[b] && rank[a + 1] > rank[b + 1])) { ord = 0; break; }
    }
    fs_assert(ord, "the positions are in suffix order");
    uint64_t h = 7;
    for (uint64_t i = 0; i < n; i++) h = h * 1000003 + sa[i];
    fs_observe("sa", h);
    free(rank);
    fs_reach("sorted");
}
static unsigned min_bits(uint64_t v) { unsigned b = 1; while (v >> b) b++; return b; }
static const unsigned W[] = {32, 40, 48, 56, 64};

// every text of a length range over 0..k-1 ending with its unique 0
extern "C" void h_sais()
{
    unsigned w = W[fs_choose(fs_param("wlo", 0), fs_param("whi", 4), "sorter")];
    uint64_t n = fs_choose(fs_param("nmin", 1), fs_param("nmax", 6), "n"), k = fs_param("k", 3);
    uint64_t *t = (uint64_t *)malloc(n * sizeof *t), *sa = (uint64_t *)malloc(n * sizeof *sa);
    uint64_t gap = fs_param("gap", 1); // values used: 1, 1+gap, ...: some symbols never occur
    for (uint64_t i = 0; i + 1 < n; i++) t[i] = 1 + gap * fs_range(0, k - 2, "t");
    t[n - 1] = 0;
    uint64_t kk = 1 + gap * (k - 2) + 1;
    unsigned cs = min_bits(kk - 1);
    uint64_t base = fs_heap_live();
    flbwt::PackedArray *A = new flbwt::PackedArray(n + 1, (uint8_t)cs);
    A->set_value(0, kk - 1);
    for (uint64_t i = 0; i < n; i++) A->set_value(i + 1, t[i]);
    sort_with(w, (uint8_t *)A->get_raw_arr_pointer(), n, kk, (uint8_t)cs, sa);
    check_sa(t, n, sa, w);
    delete A;
    fs_assert(fs_heap_live() == base, "everything allocated is released");
    free(t); free(sa);
}
// longer structured texts: deep recursion, reused buffers
extern "C" void h_sais_long()
{
    unsigned w = W[fs_choose(fs_param("wlo", 0), fs_param("whi", 4), "sorter")];
    uint64_t n = fs_choose(fs_param("nmin", 40), fs_param("nmax", 60), "n"), pat = fs_choose(0, fs_param("pats", 6), "pat");
    uint64_t *t = (uint64_t *)malloc(n * sizeof *t), *sa = (uint64_t *)malloc(n * sizeof *sa);
    uint64_t x = 12345 + n, kk = 2;
    for (uint64_t i = 0; i + 1 < n; i++) {
        switch (pat) {
        case 0: { uint64_t a = 0, y = i + 1; while (!(y & 1)) { a++; y >>= 1; } t[i] = 1 + a; break; }
        case 1: t[i] = 1 + (i & 1); break;
        case 2: t[i] = 1 + i % 3; break;
        case 3: x = x * 6364136223846793005ULL + 1; t[i] = 1 + (x >> 60) % 2; break;
        case 4: { uint64_t c = 0, y = i; while (y) { c ^= y & 1; y >>= 1; } t[i] = 1 + c; break; }
        case 5: t[i] = n - i; break;
        default: x = x * 6364136223846793005ULL + 1; t[i] = 1 + (x >> 33) % (n * 2); break;
        }
        if (pat == 6) t[i] = i < 2 ? 2 - i : t[i];
    }
    // two positions take arbitrary small values
    for (int r = 0; r < (int)fs_param("nsym", 1); r++) if (n > 2) t[fs_choose(0, (n - 2) / fs_param("stride", 5), "at") * fs_param("stride", 5)] = 1 + fs_range(0, 2, "v");
    t[n - 1] = 0;
    for (uint64_t i = 0; i + 1 < n; i++) t[i] = fs_concretize(t[i]);
    for (uint64_t i = 0; i < n; i++) if (t[i] + 1 > kk) kk = t[i] + 1;
    unsigned cs = min_bits(kk - 1);
    uint64_t base = fs_heap_live();
    flbwt::PackedArray *A = new flbwt::PackedArray(n + 1, (uint8_t)cs);
    A->set_value(0, kk - 1);
    for (uint64_t i = 0; i < n; i++) A->set_value(i + 1, t[i]);
    sort_with(w, (uint8_t *)A->get_raw_arr_pointer(), n, kk, (uint8_t)cs, sa);
    check_sa(t, n, sa, w);
    delete A;
    fs_assert(fs_heap_live() == base, "everything allocated is released");
    free(t); free(sa);
}
// C11: same text, every element width
extern "C" void h_width()
{
    unsigned which = (unsigned)fs_choose(fs_param("wlo", 0), fs_param("whi", 4), "sorter"), w = W[which];
    uint64_t n = fs_choose(fs_param("nmin", 4), fs_param("nmax", 5), "n"), k = fs_param("k", 4);
    uint64_t big = fs_param("big", 0);
    uint64_t *t = (uint64_t *)malloc(n * sizeof *t), *sa = (uint64_t *)malloc(n * sizeof *sa);
    for (uint64_t i = 0; i + 1 < n; i++) {
        uint64_t v = 1 + fs_range(0, k - 2, "t");
        t[i] = v;
        if (big && i % 2 == 0) t[i] = big - v; // values with high bits set
    }
    t[n - 1] = 0;
    uint64_t kk = big ? big : k;
    unsigned cs = (unsigned)fs_choose(min_bits(kk - 1), w - 1, "cs");
    uint64_t first = fs_u64("first") & ((cs < 64 ? 1ULL << cs : 0) - 1); // element 0 is arbitrary
    flbwt::PackedArray *A = new flbwt::PackedArray(n + 1, (uint8_t)cs);
    A->set_value(0, first);
    for (uint64_t i = 0; i < n; i++) A->set_value(i + 1, t[i]);
    sort_with(w, (uint8_t *)A->get_raw_arr_pointer(), n, kk, (uint8_t)cs, sa);
    check_sa(t, n, sa, w);
    delete A;
    free(t); free(sa);
}
// C11 on longer texts: one text per pattern, every element width
extern "C" void h_width_long()
{
    unsigned which = (unsigned)fs_choose(fs_param("wlo", 0), fs_param("whi", 4), "sorter"), w = W[which];
    uint64_t n = fs_choose(fs_param("nmin", 60), fs_param("nmax", 70), "n"), pat = fs_choose(0, 4, "pat"), x = 99 + n, mx = 0;
    uint64_t *t = (uint64_t *)malloc(n * sizeof *t), *sa = (uint64_t *)malloc(n * sizeof *sa);
    for (uint64_t i = 0; i + 1 < n; i++) {
        x = x * 6364136223846793005ULL + 1;
        switch (pat) {
        case 0: { uint64_t a = 0, y = i + 1; while (!(y & 1)) { a++; y >>= 1; } t[i] = 1 + a; break; }
        case 1: t[i] = 1 + (i & 1); break;
        case 2: t[i] = 1 + (x >> 60) % 2; break;
        case 3: t[i] = 1 + (x >> 33) % 5; break;
        default: t[i] = 1 + (x >> 33) % 60; break;
        }
        if (t[i] > mx) mx = t[i];
    }
    t[n - 1] = 0;
    unsigned cs = (unsigned)fs_choose(min_bits(mx), w - 1, "cs");
    uint64_t base = fs_heap_live();
    flbwt::PackedArray *A = new flbwt::PackedArray(n + 1, (uint8_t)cs);
    A->set_value(0, fs_u64("first") & ((1ULL << cs) - 1));
    for (uint64_t i = 0; i < n; i++) A->set_value(i + 1, t[i]);
    sort_with(w, (uint8_t *)A->get_raw_arr_pointer(), n, mx + 1, (uint8_t)cs, sa);
    check_sa(t, n, sa, w);
    delete A;
    fs_assert(fs_heap_live() == base, "everything allocated is released");
    free(t); free(sa);
}
