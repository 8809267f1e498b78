// C15: bucket boundaries of the 56-bit sorter
#define sais_56bit fs_sais_56bit // the sorter itself is in the module already
#include "sais56bit.cpp"
#include "bk.h"

extern "C" void h_buckets56()
{
    uint64_t k = fs_choose(1, fs_param("k", 3), "k"), c[8], b[8];
    bool end = fs_choose(0, 1, "end"), same = fs_choose(0, 1, "same");
    bk_counts(c, k, 56);
    uint32_t CL[8], BL[8]; uint16_t CM[8], BM[8]; int8_t CU[8], BU[8];
    for (uint64_t i = 0; i < k; i++) flbwt::set_56bit_value(CL, CM, CU, i, (int64_t)c[i]);
    if (same) for (uint64_t i = 0; i < k; i++) { BL[i] = CL[i]; BM[i] = CM[i]; BU[i] = CU[i]; };
    get_buckets(same ? BL : CL, same ? BM : CM, same ? BU : CU, BL, BM, BU, k, end);
    for (uint64_t i = 0; i < k; i++) b[i] = (uint64_t)flbwt::get_56bit_value(BL, BM, BU, i);
    bk_check(c, b, k, end);
}
