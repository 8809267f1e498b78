// bucket boundaries of one suffix sorter: the sorter's own file is included and its internal function called
#include "fs.h"
#include <stdlib.h>
#include "utility.hpp"
// k counts of any size whose sum is a position of the sorter's width
static uint64_t bk_counts(uint64_t *c, uint64_t k, unsigned bits)
{
    uint64_t sum = 0;
    for (uint64_t i = 0; i < k; i++) {
        c[i] = fs_u64("count");
        fs_assume(c[i] < (1ULL << (bits - 1)));
        sum += c[i];
        fs_assume(sum < (1ULL << (bits - 1)));
    }
    return sum;
}
static void bk_check(const uint64_t *c, const uint64_t *b, uint64_t k, bool end)
{
    uint64_t sum = 0;
    for (uint64_t i = 0; i < k; i++) {
        if (end) fs_assert(b[i] == sum + c[i], "a bucket ends after its symbols");
        else fs_assert(b[i] == sum, "a bucket starts after the smaller symbols");
        sum += c[i];
        fs_observe("b", b[i]);
    }
    fs_reach("bounds");
}
