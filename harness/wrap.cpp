// Call-site redirections inside the library (see checklib.py): each passes straight through
// unless the driver sets a bound.
#include "fs.h"
#include "flbwt.hpp"
#include <new>

// table size of the pipeline reduced (class parameter; any size is legal)
extern "C" void fsw_HashTable_ctor(flbwt::HashTable *self, const uint64_t size, const uint64_t n)
{
    uint64_t k = fs_param("htsize", 0);
    new (self) flbwt::HashTable(k && k < size ? k : size, n);
}
// makes bwt_is choose a wider position type: positions are shifted up by 2^posbits, as if the
// records lay that far above the base address, and the announced maximum grows accordingly
extern "C" uint8_t **fsw_sort(uint8_t *T, flbwt::Container *c)
{
    uint8_t **s = flbwt::sort_LMS_strings(T, c);
    long pb = fs_param("posbits", 0);
    if (pb) {
        uint64_t d = pb == 1 ? 0 : 1ULL << pb;
        if (fs_param("shift", 1)) { c->bwp_base -= d; c->bwp_width = 64 - __builtin_clzl(d + (c->max_ptr - c->min_ptr) + 2); }
        c->sa_max_value += d;
    }
    return s;
}
// ends a call of bwt_string as soon as its parameters are accepted
struct FsAccepted {};
extern "C" flbwt::Container *fsw_extract(uint8_t *T, const uint64_t n)
{
    if (fs_param("accept", 0)) throw FsAccepted();
    return flbwt::extract_LMS_strings(T, n);
}
// executed basic blocks of the library (incremented by code that checklib.py inserts)
extern "C" {
uint64_t fsw_count = 0, fsw_limit = -1;
void fsw_enter() { if (++fsw_count > fsw_limit) fs_assert(0, "the number of steps stays within its linear bound"); }
}
// a point where another thread may run (inserted by checklib.py); id identifies the place
extern "C" void (*fsw_on_yield)(uint64_t);
void (*fsw_on_yield)(uint64_t) = 0;
extern "C" void fsw_yield(uint64_t id) { if (fsw_on_yield) fsw_on_yield(id); }
