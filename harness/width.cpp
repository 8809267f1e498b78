// C21: computed field widths
#include "texts.h"
#include "flbwt.hpp"
#include "hashtable.hpp"
#include "utility.hpp"

extern "C" void h_msb()
{
    uint64_t v = fs_u64("v");
    fs_assume(v != 0);
    uint64_t b = flbwt::position_of_msb(v);
    fs_assert(b >= 1 && b <= 64, "between 1 and 64 bits");
    fs_assert(b == 64 || (v >> (b % 64)) == 0, "the width suffices");
    fs_assert((v >> ((b - 1) % 64)) == 1, "the width is needed");
    fs_observe("b", b);
    fs_reach("compared");
}
extern "C" void h_namebytes()
{
    uint64_t n = fs_u64("n");
    fs_assume(n >= 1); fs_assume(n <= 1ULL << 58);
    flbwt::HashTable h(1, n);
    uint64_t nb = fs_concretize(h.NAME_BYTES);
    fs_assert(nb >= 1 && nb <= 8, "between 1 and 8 name bytes");
    uint64_t mx = n / 2 + 1;
    fs_assert(nb == 8 || (mx >> (8 * (nb % 8))) == 0, "the name bytes hold n/2+1");
    // and they really carry every such name
    uint8_t b[32];
    h.set_length(b, 5);
    uint64_t name = fs_u64("name");
    fs_assume(name <= mx);
    h.set_name(b, name);
    fs_assert(h.get_name(b) == name, "every possible name survives");
    fs_observe("nb", nb);
    fs_reach("compared");
}
// position width and packed name width chosen for a real input
extern "C" void h_bwp()
{
    uint64_t n;
    uint8_t *T = make_text(&n);
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    uint8_t **s = flbwt::sort_LMS_strings(T, c);
    uint64_t w = c->bwp_width;
    fs_assert(w >= 1 && w <= 63, "a usable width");
    // every position of a character inside a record (all but the end record, which precedes nothing) is queued
    int ok = 1;
    for (uint64_t i = 1; i < c->num_of_unique_substrings + 2; i++) {
        uint64_t v = (uint64_t)(c->hashtable->get_first_character_pointer(s[i]) + c->hashtable->get_length(s[i]) - 1 - c->bwp_base);
        ok &= (v >> w) == 0;
        ok &= v <= c->sa_max_value;
        ok &= (int64_t)(c->hashtable->get_first_character_pointer(s[i]) - c->bwp_base) > 0;
    }
    fs_assert(ok, "the position width holds every queued position");
    flbwt::PackedArray *T1 = flbwt::create_shortened_string(T, n, c);
    fs_assert((c->num_of_unique_substrings + 1) >> T1->get_integer_bits() == 0, "the packed width holds every name");
    fs_assert(T1->get_length() == c->num_of_substrings + 2, "one element per substring, head and end");
    fs_observe("w", w);
    fs_reach("compared");
    delete T1; free(s); delete c; free(T);
}
