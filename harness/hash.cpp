// C13, C14: substring records and the substring table
#include "fs.h"
#include "hashtable.hpp"
#include <stdlib.h>
#include <string.h>
#include <stdexcept>

static unsigned nbytes(uint64_t v) { unsigned k = 0; while (v) { k++; v >>= 8; } return k; }

// length field: any length, any previous memory content
extern "C" void h_len()
{
    flbwt::HashTable h(1, 100);
    uint8_t b[32], c[32];
    fs_sym(b, 32, "mem");
    for (int i = 0; i < 32; i++) c[i] = b[i];
    uint64_t L = fs_u64("L");
    fs_assume(L != 0);
    uint64_t at = fs_choose(0, 8, "at");
    h.set_length(b + at, L);
    unsigned ll = h.get_lenlen(b + at);
    fs_assert(h.get_length(b + at) == L, "the length written is the length read");
    fs_assert(ll == nbytes(L), "as many length bytes as needed");
    fs_assert(h.calculate_lenlen(L) == ll, "as many length bytes as reported");
    fs_assert(h.string_info_length(b + at, L) == 1 + ll + 1 + L + h.NAME_BYTES, "the record size covers all fields");
    fs_assert(h.get_first_character_pointer(b + at) == b + at + 1 + ll + 1, "characters start behind the fields");
    for (unsigned i = 0; i < 32; i++) if (i < at || i >= at + 1 + ll) fs_assert(b[i] == c[i], "no other byte is written");
    fs_observe("ll", ll);
    fs_reach("compared");
}
// name field: any name that fits, any record length around the boundaries
extern "C" void h_name()
{
    uint64_t n = fs_u64("n");
    fs_assume(n >= 1); fs_assume(n <= 1ULL << 58);
    flbwt::HashTable h(1, n);
    unsigned nb = (unsigned)fs_concretize(h.NAME_BYTES);
    static const uint64_t lens[] = {1, 2, 3, 4, 254, 255, 256, 257, 511, 512, 513, 768, 65535, 65536, 65537};
    uint64_t l = lens[fs_choose(0, fs_param("lens", 12) - 1, "len")];
    unsigned ll = nbytes(l);
    uint64_t sz = 1 + ll + 1 + l + nb;
    uint8_t *b = (uint8_t *)malloc(sz), *c = (uint8_t *)malloc(sz);
    for (uint64_t i = 0; i < sz; i++) b[i] = (uint8_t)(i * 37 + 11);
    h.set_length(b, l);
    fs_sym(b + sz - nb, nb, "old");
    fs_sym(b + 1 + ll, 3, "chars");
    memcpy(c, b, sz);
    uint64_t name = fs_u64("name");
    if (nb < 8) name &= (1ULL << (8 * nb)) - 1;
    h.set_name(b, name);
    fs_assert(h.get_name(b) == name, "the name written is the name read");
    fs_assert(h.get_length(b) == l, "the length is unchanged");
    int ok = 1;
    for (uint64_t i = 0; i < sz - nb; i++) ok &= b[i] == c[i];
    fs_assert(ok, "no other byte is written");
    fs_assert(h.string_info_length(b, l) == sz, "the record size covers all fields");
    fs_observe("nb", nb);
    free(b); free(c);
    fs_reach("compared");
}
// block pointer: any value
extern "C" void h_ptr()
{
    flbwt::HashTable h(1, 100);
    uint8_t b[24], c[24];
    fs_sym(b, 24, "mem");
    for (int i = 0; i < 24; i++) c[i] = b[i];
    uint64_t p = fs_u64("p");
    h.set_pointer(b + 4, p);
    fs_assert(h.get_pointer(b + 4) == p, "the pointer written is the pointer read");
    fs_assert(h.get_length(b + 4) == 2, "a pointer record is marked by length 2");
    for (int i = 0; i < 24; i++) if (i < 4 || i >= 14) fs_assert(b[i] == c[i], "no other byte is written");
    fs_reach("compared");
}
static bool same(const uint8_t *a, const uint8_t *b, uint64_t n) { for (uint64_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
static uint8_t *record_of(flbwt::HashTable &h, const uint8_t *s, uint64_t m)
{ // walk all records, as sorting does
    for (uint64_t i = 0; i < h.HTSIZE; i++) {
        uint64_t p = h.head[i];
        while (p != 0) {
            uint8_t *r = &h.buf[p];
            uint64_t l = h.get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h.get_pointer(r); continue; }
            if (l == m && same(h.get_first_character_pointer(r), s, m)) return r;
            p += h.string_info_length(r, l);
        }
    }
    return NULL;
}
static uint64_t count_records(flbwt::HashTable &h)
{
    uint64_t k = 0;
    for (uint64_t i = 0; i < h.HTSIZE; i++) {
        uint64_t p = h.head[i];
        while (p != 0) {
            uint8_t *r = &h.buf[p];
            uint64_t l = h.get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h.get_pointer(r); continue; }
            k++;
            p += h.string_info_length(r, l);
        }
    }
    return k;
}
// shared driver: strings s[0..k) of lengths len[]
static void run_set(uint64_t ht, uint64_t n, uint8_t **s, uint64_t *len, uint64_t k)
{
    uint64_t base = fs_heap_live();
    {
        flbwt::HashTable h(ht, n);
        uint64_t uniq = 0, name[64];
        uint64_t first[64];
        for (uint64_t i = 0; i < k; i++) {
            first[i] = i;
            for (uint64_t j = 0; j < i; j++) if (len[j] == len[i] && same(s[j], s[i], len[i])) { first[i] = j; break; }
            // lookup before insertion
            if (first[i] == i && fs_param("lookup", 1)) {
                int t = 0;
                try { h.find_name(len[i], s[i]); } catch (std::exception &) { t = 1; }
                fs_assert(t, "looking up a substring that was never inserted throws");
            }
            uint8_t r = h.insert_string(len[i], s[i]);
            fs_assert(r == (first[i] == i ? 1 : 0), "insertion reports whether the substring is new");
            uniq += first[i] == i;
        }
        fs_assert(count_records(h) == uniq, "one record per distinct substring");
        uint64_t next = 1;
        for (uint64_t i = 0; i < k; i++) if (first[i] == i) {
            uint8_t *r = record_of(h, s[i], len[i]);
            fs_assert(r != NULL, "every inserted substring has a record");
            name[i] = next; next += fs_param("namestep", 1);
            h.set_name(r, name[i]);
        }
        for (uint64_t i = 0; i < k; i++) fs_assert(h.find_name(len[i], s[i]) == name[first[i]], "a substring is found under its name");
        fs_observe("uniq", uniq); fs_observe("bufsize", h.bufsize);
    }
    fs_assert(fs_heap_live() == base, "the table releases its storage");
    fs_reach("checked");
}
// short strings, arbitrary bytes, all collide (or nearly)
extern "C" void h_set()
{
    uint64_t ht = fs_choose(fs_param("htmin", 1), fs_param("htmax", 2), "ht");
    uint64_t k = fs_param("k", 4);
    uint8_t *s[64]; uint64_t len[64];
    for (uint64_t i = 0; i < k; i++) {
        len[i] = fs_choose(3, fs_param("lmax", 4), "len");
        s[i] = (uint8_t *)malloc(len[i]);
        fs_sym(s[i], len[i], "s");
    }
    run_set(ht, fs_param("n", 1000), s, len, k);
    for (uint64_t i = 0; i < k; i++) free(s[i]);
}
// long strings: block extension, exact fit of blocks; two symbolic bytes each
extern "C" void h_block()
{
    uint64_t ht = fs_choose(1, fs_param("htmax", 1), "ht");
    uint64_t k = fs_param("k", 5);
    uint8_t *s[64]; uint64_t len[64];
    for (uint64_t i = 0; i < k; i++) {
        if (fs_param("mode", 0) == 0) len[i] = i < 2 ? fs_choose(fs_param("lo", 460), fs_param("hi", 530), "len") : 3 + i;
        else if (fs_param("mode", 0) == 1) { static const uint64_t L[] = {3, 100, 255, 256, 257, 490, 500, 512, 600, 768, 1024, 1500}; len[i] = L[fs_choose(0, 11, "len")]; }
        else if (fs_param("mode", 0) == 3) { static const uint64_t L[] = {3, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1500}; len[i] = i ? len[0] : L[fs_choose(0, 18, "len")]; }
        else len[i] = fs_param("lo", 60) + (i == 0 ? fs_choose(0, fs_param("hi", 60), "len") : 0);
        s[i] = (uint8_t *)malloc(len[i]);
        for (uint64_t j = 0; j < len[i]; j++) s[i][j] = (uint8_t)(j * 7 + len[i]);
        uint8_t b = (uint8_t)i;
        if (i < (uint64_t)fs_param("nsym", 2)) fs_sym(&b, 1, "b");
        if (fs_param("mode", 0) == 3) { // one arbitrary character each, anywhere (steps of 1/16 and both ends)
            uint64_t at = fs_choose(0, 17, "at");
            s[i][at == 17 ? len[i] - 1 : at == 16 ? len[i] - 2 : at * len[i] / 16] = b;
        } else
        s[i][len[i] - 1] = b;
    }
    run_set(ht, fs_param("n", 100000), s, len, k);
    for (uint64_t i = 0; i < k; i++) free(s[i]);
}

// a record and its neighbour: no field of one disturbs the other
extern "C" void h_next()
{
    static const uint64_t ns[] = {1, 254, 508, 509, 510, 511, 131068, 131069, 131070, 131071, 1ULL << 24, (1ULL << 25) - 2, 1ULL << 26, 1ULL << 33, 1ULL << 58};
    flbwt::HashTable h(1, ns[fs_choose(0, 14, "n")]);
    unsigned nb = (unsigned)h.NAME_BYTES;
    static const uint64_t lens[] = {3, 255, 256, 300};
    uint64_t l = lens[fs_choose(0, 3, "len")];
    unsigned ll = nbytes(l);
    uint64_t sz = 1 + ll + 1 + l + nb;
    uint8_t *b = (uint8_t *)malloc(2 * sz + 12), *c = (uint8_t *)malloc(2 * sz + 12);
    fs_sym(b, 2, "o1"); memset(b + 2, 0x5a, sz - 2);
    fs_sym(b + sz, 12, "o2"); memset(b + sz + 12, 0xa5, sz);
    h.set_length(b, l);
    memcpy(c, b, 2 * sz + 12);
    uint64_t name = fs_u64("name");
    if (nb < 8) name &= (1ULL << (8 * nb)) - 1;
    uint64_t p = fs_u64("p");
    bool both = fs_choose(0, 1, "pointer");
    h.set_name(b, name);
    if (both) h.set_pointer(b + sz, p);
    fs_assert(h.string_info_length(b, h.get_length(b)) == sz, "the record size covers all fields");
    int ok = 1;
    for (uint64_t i = 0; i < sz - nb; i++) ok &= b[i] == c[i];
    for (uint64_t i = sz + (both ? 10 : 0); i < 2 * sz + 12; i++) ok &= b[i] == c[i];
    fs_assert(ok, "no byte of the neighbour or of the characters is written");
    fs_assert(h.get_name(b) == name, "the name written is the name read");
    if (both) { fs_assert(h.get_pointer(b + sz) == p, "the pointer written is the pointer read"); fs_assert(h.get_length(b + sz) == 2, "a pointer record is marked by length 2"); }
    free(b); free(c);
    fs_reach("compared");
}
// few letters, several table sizes: strings share slots or not
extern "C" void h_set_tab()
{
    uint64_t ht = fs_choose(1, fs_param("htmax", 7), "ht");
    uint64_t k = fs_param("k", 3);
    uint8_t *s[64]; uint64_t len[64];
    for (uint64_t i = 0; i < k; i++) {
        len[i] = fs_choose(3, fs_param("lmax", 3), "len");
        s[i] = (uint8_t *)malloc(len[i]);
        for (uint64_t j = 0; j < len[i]; j++) s[i][j] = (uint8_t)fs_choose(97, 96 + fs_param("letters", 3), "c");
    }
    run_set(ht, fs_param("n", 1000), s, len, k);
    for (uint64_t i = 0; i < k; i++) free(s[i]);
}
