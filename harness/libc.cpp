// C library functions without an effect of their own, given as code so that they are executed like the library.
// checklib.py renames their uses in the library's IR.
#include <stdint.h>
#include <stddef.h>
extern "C" {
void *malloc(size_t); void *realloc(void *, size_t);
char *fsl_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *fsl_stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *fsl_strcat(char *d, const char *s) { char *e = d; while (*e) e++; while ((*e++ = *s++)) {} return d; }
char *fsl_strncat(char *d, const char *s, size_t n) { char *e = d; while (*e) e++; while (n-- && *s) *e++ = *s++; *e = 0; return d; }
size_t fsl_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *fsl_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *fsl_strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return NULL; } }
char *fsl_strdup(const char *s) { size_t n = 0; while (s[n]) n++; char *r = (char *)malloc(n + 1); if (r) for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
void *fsl_memrchr(const void *p, int c, size_t n) { const uint8_t *b = (const uint8_t *)p; while (n--) if (b[n] == (uint8_t)c) return (void *)(b + n); return NULL; }
void *fsl_mempcpy(void *d, const void *s, size_t n) { uint8_t *a = (uint8_t *)d; const uint8_t *b = (const uint8_t *)s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return a + n; }
void fsl_bzero(void *d, size_t n) { uint8_t *a = (uint8_t *)d; for (size_t i = 0; i < n; i++) a[i] = 0; }
void *fsl_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) return NULL; return realloc(p, a * b); }
// stable insertion/merge order is not promised by qsort; heap sort, in place
static void swp(uint8_t *a, uint8_t *b, size_t k) { for (size_t i = 0; i < k; i++) { uint8_t t = a[i]; a[i] = b[i]; b[i] = t; } }
static void sift(uint8_t *b, size_t i, size_t n, size_t k, int (*cmp)(const void *, const void *))
{
    for (;;) {
        size_t c = 2 * i + 1;
        if (c >= n) return;
        if (c + 1 < n && cmp(b + c * k, b + (c + 1) * k) < 0) c++;
        if (cmp(b + i * k, b + c * k) >= 0) return;
        swp(b + i * k, b + c * k, k);
        i = c;
    }
}
void fsl_qsort(void *p, size_t n, size_t k, int (*cmp)(const void *, const void *))
{
    uint8_t *b = (uint8_t *)p;
    for (size_t i = n / 2; i-- > 0;) sift(b, i, n, k, cmp);
    for (size_t m = n; m > 1; m--) { swp(b, b + (m - 1) * k, k); sift(b, 0, m - 1, k, cmp); }
}
void *fsl_bsearch(const void *key, const void *p, size_t n, size_t k, int (*cmp)(const void *, const void *))
{
    const uint8_t *b = (const uint8_t *)p;
    while (n) { const uint8_t *m = b + n / 2 * k; int c = cmp(key, m); if (c == 0) return (void *)m; if (c > 0) { b = m + k; n -= n / 2 + 1; } else n /= 2; }
    return NULL;
}
}
