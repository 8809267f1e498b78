// C17, C18, C19: decomposition, order of the S* substrings, shortened string.
// The references work from the definitions of types and of the substring order.
#include "texts.h"
#include "flbwt.hpp"

struct Ref {
    uint64_t n, m;              // length, number of S* substrings without the end marker
    bool *stype;                // type of every position
    uint64_t *p, *e;            // [p..e] of the S* substrings, left to right
    uint64_t head;              // last position of the head string
    uint64_t *cls, u;           // class (first equal substring), number of classes
};
static bool s_by_definition(const uint8_t *T, uint64_t n, uint64_t i)
{ // suffix i < suffix i+1; the end of the string is smaller than every byte
    uint64_t k = i;
    while (k + 1 < n && T[k] == T[k + 1]) k++;
    if (k + 1 == n) return false;
    return T[k] < T[k + 1];
}
static bool same(const uint8_t *T, uint64_t a, uint64_t b, uint64_t len)
{
    for (uint64_t k = 0; k < len; k++) if (T[a + k] != T[b + k]) return false;
    return true;
}
static void reference(const uint8_t *T, uint64_t n, Ref &R)
{
    R.n = n; R.m = 0; R.u = 0;
    R.stype = (bool *)malloc(n + 1); R.p = (uint64_t *)malloc((n + 1) * 8); R.e = (uint64_t *)malloc((n + 1) * 8); R.cls = (uint64_t *)malloc((n + 1) * 8);
    if (n <= 64) for (uint64_t i = 0; i < n; i++) R.stype[i] = s_by_definition(T, n, i);
    else for (uint64_t i = n; i-- > 0;) R.stype[i] = i + 1 < n && (T[i] < T[i + 1] || (T[i] == T[i + 1] && R.stype[i + 1]));
    R.stype[n] = true;
    for (uint64_t i = 1; i < n; i++) if (R.stype[i] && !R.stype[i - 1]) R.p[R.m++] = i;
    for (uint64_t k = 0; k < R.m; k++) R.e[k] = k + 1 < R.m ? R.p[k + 1] : n;
    R.head = R.m ? R.p[0] : n;
}
static void classes(const uint8_t *T, Ref &R)
{
    for (uint64_t k = 0; k < R.m; k++) {
        R.cls[k] = k;
        for (uint64_t j = 0; j < k; j++) if (R.cls[j] == j && R.e[j] - R.p[j] == R.e[k] - R.p[k] && same(T, R.p[j], R.p[k], R.e[k] - R.p[k] + 1)) { R.cls[k] = j; break; }
        R.u += R.cls[k] == k;
    }
}
static void release(Ref &R) { free(R.stype); free(R.p); free(R.e); free(R.cls); }

// C17
extern "C" void h_extract()
{
    uint64_t n;
    fs_ite_max((unsigned)fs_param("ite", 1));
    uint8_t *T = make_text(&n);
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    Ref R; reference(T, n, R); classes(T, R);
    fs_assert(c->num_of_substrings == R.m, "number of S* substrings");
    fs_assert(c->num_of_unique_substrings == R.u, "number of distinct S* substrings");
    fs_assert(c->head_string_end == R.head, "end of the head string");
    fs_assert(c->n == n, "length");
    fs_assert(c->hashtable != NULL, "a table is built");
    // every byte value at once: b is arbitrary
    if (fs_param("allbytes", 1)) {
        uint64_t cm[256], cl[256], cs[256];
        for (int b = 0; b < 256; b++) cm[b] = cl[b] = cs[b] = 0;
        for (uint64_t i = 0; i < n; i++) {
            cm[T[i]]++;
            if (!R.stype[i]) cl[T[i]]++;
        }
        for (uint64_t k = 0; k < R.m; k++) cs[T[R.p[k]]]++;
        int okM = 1, okL = 1, okC = 1;
        for (int b = 0; b < 256; b++) { okM &= c->M[b + 1] == cm[b]; okL &= c->NL[b + 1] == cl[b]; okC &= c->C[b + 1] == cs[b]; }
        fs_assert(okM, "occurrences of every byte"); fs_assert(okL, "L-type occurrences of every byte"); fs_assert(okC, "S* starts of every byte");
    } else {
        uint64_t b = fs_range(0, 255, "b"), cm = 0, cl = 0, cs = 0;
        for (uint64_t i = 0; i < n; i++) { cm += T[i] == b; if (!R.stype[i]) cl += T[i] == b; }
        for (uint64_t k = 0; k < R.m; k++) cs += T[R.p[k]] == b;
        fs_assert(c->M[b + 1] == cm, "occurrences of every byte");
        fs_assert(c->NL[b + 1] == cl, "L-type occurrences of every byte");
        fs_assert(c->C[b + 1] == cs, "S* starts of every byte");
    }
    fs_assert(c->M[0] == 1 && c->C[0] == 1 && c->NL[0] == 0, "the end marker is bucket 0");
    fs_observe("m", c->num_of_substrings); fs_observe("u", c->num_of_unique_substrings); fs_observe("h", c->head_string_end);
    fs_reach("compared");
    if (R.m >= 2) fs_reach("two substrings");
    if (R.u < R.m) fs_reach("repeated substring");
    release(R); delete c; free(T);
}
// order of S* substrings: bytewise, a proper prefix comes after its extension.  -1, 0, 1
static int order(const uint8_t *a, uint64_t la, const uint8_t *b, uint64_t lb)
{
    for (uint64_t k = 0; k < la && k < lb; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1;
    return la == lb ? 0 : la > lb ? -1 : 1;
}
static bool suffix_lt(const uint8_t *T, uint64_t n, uint64_t a, uint64_t b) { return suffix_less(T, n, a, b); }

static void check_sorted(uint8_t *T, uint64_t n, flbwt::Container *c, uint8_t **s, Ref &R)
{
    flbwt::HashTable *h = c->hashtable;
    fs_assert(s != NULL, "an order is returned");
    uint64_t u = c->num_of_unique_substrings;
    fs_assert(u == R.u, "number of distinct S* substrings");
    for (uint64_t i = 1; i <= u; i++) {
        uint64_t l = h->get_length(s[i]);
        uint8_t *f = h->get_first_character_pointer(s[i]);
        if (i > 1) fs_assert(order(h->get_first_character_pointer(s[i - 1]), h->get_length(s[i - 1]), f, l) < 0, "strictly increasing in the S* substring order");
        fs_assert(h->get_name(s[i]) == i, "numbered consecutively");
        fs_assert(h->find_name(l, f) == i, "found in the table under its number");
    }
    // every substring of the input is among them (u distinct ones: then they are the same set)
    for (uint64_t k = 0; k < R.m; k++) if (R.cls[k] == k) {
        uint64_t l = R.e[k] - R.p[k] + 1, nm = h->find_name(l, T + R.p[k]);
        fs_assert(nm >= 1 && nm <= u, "every S* substring has a number");
        fs_assert(h->get_length(s[nm]) == l, "the number denotes this substring");
        fs_assert(order(h->get_first_character_pointer(s[nm]), l, T + R.p[k], l) == 0, "the number denotes this substring");
    }
    fs_assert(h->get_length(s[0]) == 1, "position 0 is the end marker");
    uint8_t *hr = s[u + 1];
    fs_assert(h->get_length(hr) == R.head + 1, "position u+1 is the head string");
    fs_assert(order(h->get_first_character_pointer(hr), R.head + 1, T, R.head + 1) == 0, "the head string is stored");
    fs_reach("order checked");
    if (u >= 2) fs_reach("two distinct substrings");
    if (R.u < R.m) fs_reach("repeated substring");
}
// C18
extern "C" void h_sort()
{
    uint64_t n;
    fs_ite_max((unsigned)fs_param("ite", 1));
    uint8_t *T = make_text(&n);
    uint8_t *keep = (uint8_t *)malloc(n + 1);
    memcpy(keep, T, n + 1);
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    uint8_t **s = flbwt::sort_LMS_strings(T, c);
    Ref R; reference(T, n, R); classes(T, R);
    check_sorted(T, n, c, s, R);
    for (uint64_t i = 0; i <= n; i++) fs_assert(T[i] == keep[i], "the input is not modified");
    fs_observe("m", c->num_of_substrings); fs_observe("u", c->num_of_unique_substrings);
    for (uint64_t k = 0; k < R.m && k < 20; k++) fs_observe("name", c->hashtable->find_name(R.e[k] - R.p[k] + 1, T + R.p[k]));
    release(R); free(s); delete c; free(T); free(keep);
}
// C19
extern "C" void h_shorten()
{
    uint64_t n;
    fs_ite_max((unsigned)fs_param("ite", 1));
    uint8_t *T = make_text(&n);
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    uint8_t **s = flbwt::sort_LMS_strings(T, c);
    uint64_t live = fs_heap_live();
    flbwt::PackedArray *t = flbwt::create_shortened_string(T, n, c);
    Ref R; reference(T, n, R); classes(T, R);
    uint64_t m = R.m, u = R.u;
    fs_assert(t != NULL && t->get_length() == m + 2, "one element per substring, head and end");
    fs_assert(t->get_value(0) == u + 1, "the first element is u+1");
    fs_assert(t->get_value(m + 1) == 0, "the last element is 0");
    flbwt::HashTable *h = c->hashtable;
    uint64_t *v = (uint64_t *)malloc((m + 2) * 8);
    for (uint64_t i = 0; i < m + 2; i++) v[i] = t->get_value(i);
    for (uint64_t k = 0; k < m; k++) {
        uint64_t l = R.e[k] - R.p[k] + 1, x = v[k + 1];
        fs_assert(x >= 1 && x <= u, "an inner element is a substring number");
        if (R.cls[k] == k) {
            fs_assert(h->get_length(s[x]) == l, "the i-th inner element numbers the i-th S* substring");
            fs_assert(order(h->get_first_character_pointer(s[x]), l, T + R.p[k], l) == 0, "the i-th inner element numbers the i-th S* substring");
        } else fs_assert(x == v[R.cls[k] + 1], "equal substrings have equal numbers");
    }
    for (uint64_t k = 0; k < m; k++) for (uint64_t j = 0; j < k && m <= 64; j++) if (R.cls[k] == k && R.cls[j] == j) fs_assert(v[k + 1] != v[j + 1], "different substrings have different numbers");
    // suffix order carries over
    if (m <= 16) for (uint64_t a = 0; a < m; a++) for (uint64_t b = 0; b < a; b++) {
        uint64_t i = a + 1, j = b + 1;
        while (v[i] == v[j]) { i++; j++; }
        fs_assert((v[i] < v[j]) == suffix_lt(T, n, R.p[a], R.p[b]), "the order of the suffixes carries over");
    }
    for (uint64_t i = 0; i < m + 2 && i < 40; i++) fs_observe("v", v[i]);
    fs_reach("compared");
    if (m >= 2) fs_reach("two substrings");
    if (u < m) fs_reach("repeated substring");
    (void)live;
    free(v); release(R); delete t; free(s); delete c; free(T);
}
