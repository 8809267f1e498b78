// C15: bucket boundaries of the 48-bit sorter
#define sais_48bit fs_sais_48bit // the sorter itself is in the module already
#include "sais48bit.cpp"
#include "bk.h"

extern "C" void h_buckets48()
{
    uint64_t k = fs_choose(1, fs_param("k", 3), "k"), c[8], b[8];
    bool end = fs_choose(0, 1, "end"), same = fs_choose(0, 1, "same");
    bk_counts(c, k, 48);
    uint32_t CL[8], BL[8]; int16_t CU[8], BU[8];
    for (uint64_t i = 0; i < k; i++) flbwt::set_48bit_value(CL, CU, i, (int64_t)c[i]);
    if (same) for (uint64_t i = 0; i < k; i++) { BL[i] = CL[i]; BU[i] = CU[i]; };
    get_buckets(same ? BL : CL, same ? BU : CU, BL, BU, k, end);
    for (uint64_t i = 0; i < k; i++) b[i] = (uint64_t)flbwt::get_48bit_value(BL, BU, i);
    bk_check(c, b, k, end);
}
