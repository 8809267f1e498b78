// Families of input texts.  Every family is a finite set described by symbolic choices.
#pragma once
#include "fs.h"
#include <stdlib.h>
#include <string.h>

static const uint8_t g_alpha[][8] = {
    {0, 255}, {0, 1}, {254, 255}, {97, 98}, {127, 128}, {0, 128, 255}, {97, 98, 99}, {0, 1, 255}, {0, 254, 255}, {0, 1, 254, 255}, {97, 98, 99, 100}, {1, 2, 3}, {127, 128, 129}, {10, 13, 26}};
static const uint8_t g_alpha_n[] = {2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 3, 3, 3};

// every byte one of alphabet a (a == 99: any byte)
static void restrict_bytes(const uint8_t *T, uint64_t n, uint64_t a)
{
    if (a >= sizeof g_alpha_n) return;
    for (uint64_t i = 0; i < n; i++) {
        int ok = 0;
        for (unsigned k = 0; k < g_alpha_n[a]; k++) ok |= T[i] == g_alpha[a][k];
        fs_assume(ok);
    }
}
// run lengths around the representation boundaries
static const uint32_t g_len0[] = {1, 2, 253, 254, 255, 256, 257, 258};
static const uint32_t g_len1[] = {1, 3, 509, 510, 511, 512, 513, 768, 1024};
static const uint32_t g_len2[] = {1, 2, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3072, 3073};
static const uint32_t g_len3[] = {1, 65533, 65534, 65535, 65536, 65537};
static const uint32_t g_len4[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
static const uint32_t g_len5[] = {1, 65536};
static const uint32_t g_len6[] = {1, 2, 3, 5, 9};
static const uint32_t g_len7[] = {65535, 65536};
static const uint32_t g_len8[] = {1, 100, 150, 298};
static const uint32_t *const g_lens[] = {g_len0, g_len1, g_len2, g_len3, g_len4, g_len5, g_len6, g_len7, g_len8};
static const unsigned g_lens_n[] = {8, 9, 12, 6, 16, 2, 5, 2, 4};

static uint64_t lcg(uint64_t &x) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 33; }

// returns a malloc'ed block of exactly n+1 bytes, T[n] == 0
static uint8_t *make_text(uint64_t *pn)
{
    uint64_t fam = fs_param("fam", 0);
    uint64_t n;
    uint8_t *T;
    if (fam == 0) { // all texts of a length range over an alphabet
        n = fs_choose(fs_param("nmin", 1), fs_param("nmax", 4), "n");
        T = (uint8_t *)malloc(n + 1);
        fs_sym(T, n, "T");
        restrict_bytes(T, n, fs_param("alpha", 0));
    } else if (fam == 1) { // all texts over sig consecutive bytes, anywhere in the byte range
        uint64_t sig = fs_param("sig", 2);
        n = fs_choose(fs_param("nmin", 1), fs_param("nmax", 4), "n");
        T = (uint8_t *)malloc(n + 1);
        uint64_t b = fs_choose(0, 256 - sig, "base");
        fs_sym(T, n, "T");
        for (uint64_t i = 0; i < n; i++) { fs_assume(T[i] >= b); fs_assume(T[i] <= b + sig - 1); }
    } else if (fam == 2) { // runs of boundary lengths
        uint64_t r = fs_choose(fs_param("rmin", 1), fs_param("rmax", 3), "runs");
        uint64_t ls = fs_param("lens", 0), len[16];
        uint8_t ch[16];
        n = 0;
        for (uint64_t i = 0; i < r; i++) { len[i] = g_lens[ls][fs_choose(0, g_lens_n[ls] - 1, "len")]; n += len[i]; }
        fs_sym(ch, r, "ch");
        restrict_bytes(ch, r, fs_param("alpha", 5));
        for (uint64_t i = 0; i + 1 < r; i++) fs_assume(ch[i] != ch[i + 1]);
        for (uint64_t i = 0; i < r; i++) ch[i] = (uint8_t)fs_concretize(ch[i]);
        T = (uint8_t *)malloc(n + 1);
        uint64_t k = 0;
        for (uint64_t i = 0; i < r; i++) { memset(T + k, ch[i], len[i]); k += len[i]; }
    } else if (fam == 4) { // u^k v w^m
        uint64_t ls = fs_param("lens", 0), ul = fs_choose(1, fs_param("ulen", 3), "ul"), vl = fs_choose(0, fs_param("vlen", 2), "vl"), wl = fs_choose(0, fs_param("wlen", 2), "wl");
        uint64_t k = g_lens[ls][fs_choose(0, g_lens_n[ls] - 1, "k")], m = wl ? g_lens[ls][fs_choose(0, g_lens_n[ls] - 1, "m")] : 0;
        uint8_t u[24];
        fs_sym(u, ul + vl + wl, "u");
        restrict_bytes(u, ul + vl + wl, fs_param("alpha", 6));
        for (uint64_t i = 0; i < ul + vl + wl; i++) u[i] = (uint8_t)fs_concretize(u[i]);
        n = ul * k + vl + wl * m;
        T = (uint8_t *)malloc(n + 1);
        uint64_t p = 0;
        for (uint64_t i = 0; i < ul * k; i++) T[p++] = u[i % ul];
        for (uint64_t i = 0; i < vl; i++) T[p++] = u[ul + i];
        for (uint64_t i = 0; i < wl * m; i++) T[p++] = u[ul + vl + i % wl];
    } else if (fam == 5) { // a run of any length of a range between two short words
        uint64_t k = fs_choose(fs_param("nmin", 1), fs_param("nmax", 300), "k"), a = fs_param("head", 1), z = fs_param("tail", 2);
        uint8_t w[16];
        fs_sym(w, a + z + 1, "w");
        restrict_bytes(w, a + z + 1, fs_param("alpha", 0));
        for (uint64_t i = 0; i < a + z + 1; i++) w[i] = (uint8_t)fs_concretize(w[i]);
        n = a + k + z;
        T = (uint8_t *)malloc(n + 1);
        for (uint64_t i = 0; i < n; i++) T[i] = i < a ? w[i] : i < a + k ? w[a] : w[i - k + 1];
    } else if (fam == 6) { // groups a b^x c b^y: long S* substrings that agree but for one character inside
        uint64_t g = fs_choose(fs_param("gmin", 2), fs_param("gmax", 3), "groups"), ls = fs_param("lens", 0), x[8], y[8];
        uint8_t c[8], d[8];
        n = 0;
        for (uint64_t i = 0; i < g; i++) {
            uint64_t sum = fs_param("sum", 0);
            x[i] = g_lens[ls][fs_choose(0, g_lens_n[ls] - 1, "x")];
            y[i] = !sum ? g_lens[ls][fs_choose(0, g_lens_n[ls] - 1, "y")] : x[i] < sum ? sum - x[i] : 1;
            c[i] = (uint8_t)(fs_param("c", 99) + fs_choose(0, fs_param("cs", 2) - 1, "c"));
            d[i] = fs_param("ds", 0) ? (uint8_t)(98 + fs_choose(0, fs_param("ds", 0) - 1, "d")) : 98;
            n += 2 + x[i] + y[i];
        }
        n += 3;
        T = (uint8_t *)malloc(n + 1);
        uint64_t p = 0;
        T[p++] = 122; // so that every group is an S* substring
        for (uint64_t i = 0; i < g; i++) {
            T[p++] = 97;
            memset(T + p, 98, x[i]); p += x[i];
            T[p++] = c[i];
            memset(T + p, 98, y[i]); p += y[i];
            T[p - 1] = d[i];
        }
        T[p++] = 97; T[p++] = 122;
    } else { // fam 3: long patterned text with a few symbolic bytes at symbolic places
        uint64_t pat = fs_param("pat", 0), seed = 1 + fs_param("pseed", 0);
        n = fs_choose(fs_param("nmin", 1000), fs_param("nmax", 1000), "n");
        T = (uint8_t *)malloc(n + 1);
        uint64_t sg = fs_param("sig", 3);
        for (uint64_t i = 0; i < n; i++) {
            uint64_t q = i / 4;
            switch (pat) {
            case 0: T[i] = 97 + (i & 1); break;
            case 1: T[i] = i % 4 == 0 ? 1 : i % 4 == 1 ? 10 + (q & 127) : i % 4 == 2 ? 10 + (q >> 7 & 127) : 200; break;    // distinct S* substrings
            case 2: T[i] = (uint8_t)lcg(seed); break;                                                                      // random bytes
            case 3: T[i] = (uint8_t)(97 + lcg(seed) % sg); break;                                                          // random over few letters
            case 4: T[i] = (uint8_t)i; break;
            case 5: T[i] = (uint8_t)(255 - i); break;
            case 6: { uint64_t a = 0, x = i + 1; while (!(x & 1)) { a++; x >>= 1; } T[i] = (uint8_t)(a & 0xff); break; }    // ruler sequence
            case 7: { uint64_t x = i; unsigned c = 0; while (x) { c += x & 1; x >>= 1; } T[i] = 97 + (c & 1); break; }      // Thue-Morse
            case 8: T[i] = i % 3 == 0 ? (uint8_t)lcg(seed) : i % 3 == 1 ? 255 : 0; break;
            case 12: { uint64_t g = i / 5, d = i % 5; T[i] = d == 0 ? 1 : d == 4 ? 250 : 2 + 50 * (d - 1) + (d == 1 ? g % 41 : d == 2 ? g / 41 % 41 : g / 1681 % 41); break; } // up to 68921 distinct S* substrings
            case 13: { uint64_t g = i / 3, d = i % 3; T[i] = d == 0 ? (g / 64516) & 1 : d == 1 ? 2 + g % 254 : 2 + g / 254 % 254; break; } // up to 129032 distinct S* substrings
            case 14: { uint64_t g = i / 12, d = i % 12; T[i] = d == 0 ? 1 : d < 9 ? 2 : d == 9 ? 3 + g % 37 : d == 10 ? 43 + g / 37 % 41 : 93 + g / 1517 % 41; break; } // distinct S* substrings with a long common prefix
            case 15: { uint64_t g = i / 12, d = i % 12; T[i] = d == 0 ? 1 : d > 3 ? 250 : d == 1 ? 3 + g % 37 : d == 2 ? 43 + g / 37 % 41 : 93 + g / 1517 % 41; break; } // and with a long common suffix
            case 16: { uint64_t g = i / 48, d = i % 48; T[i] = d == 0 ? 1 : d < 20 ? 2 : d > 22 ? 250 : d == 20 ? 3 + g % 37 : d == 21 ? 43 + g / 37 % 41 : 93 + g / 1517 % 41; break; } // distinct only in the middle
            case 17: { uint64_t g = i / 5, x = g % 57, y = g / 57 % 57; T[i] = i % 5 == 0 ? 1 : i % 5 == 1 ? 2 + x : i % 5 == 2 ? 120 - x : i % 5 == 3 ? 122 + y : 240 - y; break; } // up to 3249 distinct S* substrings of one sum
            case 9: T[i] = i < n / 2 ? (i & 1 ? 98 : 97) : (i % 3 ? 98 : 97); break;
            case 10: T[i] = (uint8_t)(97 + (i % 50 < 25 ? lcg(seed) % 2 : i % 2)); break;
            default: T[i] = 97; break;
            }
        }
        if (pat == 11) { // Fibonacci word
            uint64_t a = 1, b = 2; T[0] = 98; if (n > 1) T[1] = 97;
            while (b < n) { for (uint64_t i = 0; i < a && b + i < n; i++) T[b + i] = T[i]; uint64_t c = a + b; a = b; b = c; }
        }
        uint64_t ks = fs_param("nsym", 1), stride = fs_param("stride", 97);
        for (uint64_t k = 0; k < ks; k++) {
            uint64_t places = (n - 1) / stride + 1;
            uint64_t at = fs_choose(0, places - 1, "place") * stride;
            if (fs_param("fromend", 0)) at = n - 1 - at;
            uint8_t b;
            fs_sym(&b, 1, "b");
            restrict_bytes(&b, 1, fs_param("alpha", 9));
            T[at] = b;
        }
    }
    T[n] = 0;
    *pn = n;
    return T;
}

// is suffix a smaller than suffix b? (the empty suffix at n is the smallest)
static inline bool suffix_less(const uint8_t *T, uint64_t n, uint64_t a, uint64_t b)
{
    while (true) {
        if (a == n) return b != n;
        if (b == n) return false;
        if (T[a] != T[b]) return T[a] < T[b];
        a++; b++;
    }
}
// definition of the transform, by insertion sort of the suffixes
static void oracle_sort(const uint8_t *T, uint64_t n, uint64_t *sa)
{
    for (uint64_t i = 0; i <= n; i++) {
        uint64_t k = i;
        while (k > 0 && suffix_less(T, n, i, sa[k - 1])) { sa[k] = sa[k - 1]; k--; }
        sa[k] = i;
    }
}
// inverse transform; true iff (B without row last, last) inverts to T.  Linear time.
// Because the inverse is a function, success means B is the transform of T.
static bool inverts_to(const uint8_t *B, uint64_t last, const uint8_t *T, uint64_t n)
{
    uint64_t cnt[257];
    for (int c = 0; c < 257; c++) cnt[c] = 0;
    uint64_t *rank = (uint64_t *)malloc((n + 1) * sizeof(uint64_t));
    for (uint64_t i = 0; i <= n; i++) if (i != last) rank[i] = cnt[B[i] + 1]++;
    uint64_t sum = 1; // row 0 is the empty suffix
    for (int c = 1; c < 257; c++) { uint64_t k = cnt[c]; cnt[c] = sum; sum += k; }
    uint64_t row = 0; // the empty suffix
    bool ok = true;
    for (uint64_t k = n; k-- > 0;) {
        if (row == last) { ok = false; break; }
        uint8_t c = B[row];
        if (c != T[k]) { ok = false; break; }
        row = cnt[c + 1] + rank[row];
    }
    if (ok && row != last) ok = false;
    free(rank);
    return ok;
}
