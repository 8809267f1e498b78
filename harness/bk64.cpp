// C15: bucket boundaries of the 64-bit sorter
#define sais_64bit fs_sais_64bit // the sorter itself is in the module already
#include "sais64bit.cpp"
#include "bk.h"

extern "C" void h_buckets64()
{
    uint64_t k = fs_choose(1, fs_param("k", 3), "k"), c[8], b[8];
    bool end = fs_choose(0, 1, "end"), same = fs_choose(0, 1, "same");
    bk_counts(c, k, 64);
    int64_t C[8], B[8];
    for (uint64_t i = 0; i < k; i++) C[i] = (int64_t)c[i];
    if (same) for (uint64_t i = 0; i < k; i++) B[i] = C[i];
    get_buckets(same ? B : C, B, k, end);
    for (uint64_t i = 0; i < k; i++) b[i] = (uint64_t)B[i];
    bk_check(c, b, k, end);
}
