// C10: PackedArray is an array of w-bit integers, for any length, index pair and value
#include "fs.h"
#include "packed_array.hpp"
#include <stdlib.h>

extern "C" void h_parray()
{
    uint64_t base = fs_heap_live();
    unsigned w = (unsigned)fs_choose(fs_param("wmin", 1), fs_param("wmax", 64), "w");
    uint64_t L = fs_range(1, 1ULL << fs_param("lbits", 12), "L");
    uint64_t i = fs_range(0, (1ULL << fs_param("lbits", 12)) - 1, "i"), j = fs_range(0, (1ULL << fs_param("lbits", 12)) - 1, "j");
    if (fs_param("lmin", 0)) fs_assume(L * w >= 1ULL << fs_param("lmin", 0));
    fs_assume(i < L); fs_assume(j < L); fs_assume(i != j);
    uint64_t v = fs_u64("v"), u = fs_u64("u");
    if (w < 64) { v &= (1ULL << w) - 1; u &= (1ULL << w) - 1; }
    flbwt::PackedArray *A = new flbwt::PackedArray(L, (uint8_t)w);
    fs_assert(A->get_length() == L, "reported length is the length given");
    fs_assert(A->get_integer_bits() == w, "reported width is the width given");
    A->set_value(j, u);
    A->set_value(i, v);
    uint64_t ri = A->get_value(i), rj = A->get_value(j);
    fs_assert(ri == v, "reading i returns the value stored at i");
    fs_assert(rj == u, "storing at i does not change j");
    fs_observe("ri", ri); fs_observe("rj", rj);
    delete A;
    fs_assert(fs_heap_live() == base, "storage released");
    fs_reach("compared");
}
// an element never stored to keeps whatever it read as (no bleed from neighbours)
extern "C" void h_parray_old()
{
    unsigned w = (unsigned)fs_choose(fs_param("wmin", 1), fs_param("wmax", 64), "w");
    uint64_t L = fs_range(1, 1ULL << fs_param("lbits", 12), "L");
    uint64_t i = fs_range(0, (1ULL << fs_param("lbits", 12)) - 1, "i"), j = fs_range(0, (1ULL << fs_param("lbits", 12)) - 1, "j");
    fs_assume(i < L); fs_assume(j < L); fs_assume(i != j);
    uint64_t v = fs_u64("v");
    if (w < 64) v &= (1ULL << w) - 1;
    flbwt::PackedArray *A = new flbwt::PackedArray(L, (uint8_t)w);
    uint64_t before = A->get_value(j);
    if (w < 64) fs_assert(before < 1ULL << w, "a value read fits the width");
    A->set_value(i, v);
    fs_assert(A->get_value(j) == before, "storing at i does not change j");
    fs_assert(A->get_value(i) == v, "reading i returns the value stored at i");
    delete A;
    fs_reach("compared");
}
// concrete-length arrays filled completely, every element read back
extern "C" void h_parray_fill()
{
    unsigned w = (unsigned)fs_choose(fs_param("wmin", 1), fs_param("wmax", 64), "w");
    uint64_t L = fs_choose(fs_param("lmin", 1), fs_param("lmax", 9), "L");
    flbwt::PackedArray A(L, (uint8_t)w);
    uint64_t v[260];
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    for (uint64_t i = 0; i < L; i++) v[i] = fs_u64("v") & m;
    if (fs_param("down", 0)) for (uint64_t i = L; i-- > 0;) A.set_value(i, v[i]);
    else for (uint64_t i = 0; i < L; i++) A.set_value(i, v[i]);
    uint64_t again = fs_choose(0, L - 1, "again");
    v[again] = fs_u64("v2") & m;
    A.set_value(again, v[again]);
    int ok = 1;
    for (uint64_t i = 0; i < L; i++) ok &= A.get_value(i) == v[i];
    fs_assert(ok, "every element reads back");
    fs_assert(A.get_length() == L && A.get_integer_bits() == w, "reported length and width");
    for (uint64_t i = 0; i < L; i++) fs_observe("r", A.get_value(i));
    fs_reach("compared");
}

// indices and lengths whose bit positions exceed 31 and 32 bits
extern "C" void h_parray_big()
{
    unsigned w = (unsigned)fs_choose(fs_param("wmin", 1), fs_param("wmax", 64), "w");
    static const uint64_t bits[] = {1ULL << 31, 1ULL << 32, 1ULL << 33, 1ULL << 37, 1ULL << 38};
    static const uint64_t idx[] = {1ULL << 15, 1ULL << 16, 1ULL << 31, 1ULL << 32};
    uint64_t sel = fs_choose(0, 8, "where"), c = sel < 5 ? bits[sel] / w : idx[sel - 5];
    uint64_t L = c + 70;
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    flbwt::PackedArray *A = new flbwt::PackedArray(L, (uint8_t)w);
    fs_assert(A->get_length() == L && A->get_integer_bits() == w, "reported length and width");
    uint64_t at[6] = {0, c - 1, c, c + 1, c + 2, L - 1}, v[6];
    for (int k = 0; k < 6; k++) { v[k] = fs_u64("v") & m; A->set_value(at[k], v[k]); }
    int again = (int)fs_choose(0, 5, "again");
    v[again] = fs_u64("v2") & m;
    A->set_value(at[again], v[again]);
    int ok = 1;
    for (int k = 0; k < 6; k++) ok &= A->get_value(at[k]) == v[k];
    fs_assert(ok, "every element reads back");
    delete A;
    fs_reach("compared");
}
