// Model of the C stream functions: two named files held in memory, and a symbolic fault plan.
#pragma once
#include "texts.h"
#include <stdio.h>

struct MFile { const char *name; bool exists; uint8_t *data; uint64_t size, cap; uint64_t opens_w, writes; };
struct MStream { MFile *f; uint64_t pos; bool rd, wr, app, open, err, eof; int idx; };

static MFile g_in, g_out;
static MStream g_str[8];
static int g_nstr = 0;
static bool g_bad = false;               // call with an invalid stream
enum { F_NONE, F_OPEN_IN, F_SEEK, F_TELL, F_READ, F_OPEN_OUT, F_WRITE, F_CLOSE_OUT, F_FLUSH, F_CLOSE_IN };
static uint64_t g_fault = F_NONE;        // which kind of call fails
static uint64_t g_fault_at = 0;          // which occurrence of it (0: first)
static uint64_t g_seen[16];
static uint64_t g_fault_pos = ~0ULL;     // or: the first call that covers this byte of the file fails
static uint64_t g_tell = 0;              // size reported for the input, if not the real one
static bool g_hit = false;               // the fault has happened
static bool g_sink = false;              // big mode: data is not stored, only (pointer, length) pairs
static uint64_t g_sinkn = 0; static const uint8_t *g_sinkp[64]; static uint64_t g_sinkl[64]; static uint8_t g_sinkhdr[16]; static uint64_t g_sinkhl = 0;

static bool faulty(uint64_t kind)
{
    if (g_fault != kind) return false;
    if (g_seen[kind]++ != g_fault_at) return false;
    g_hit = true;
    return true;
}
static bool g_trans = false;             // calls after a failed transfer work again
static bool g_few = false;               // partial transfers: a few lengths only
static uint64_t partial(uint64_t n, const char *name)
{
    if (g_sink) { uint64_t v = fs_u64(name); fs_assume(v < n); return v; }
    if (!g_few || n < 5) return fs_choose(0, n - 1, name);
    uint64_t k = fs_choose(0, 4, name);
    return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? n / 2 : k == 3 ? n - 2 : n - 1;
}
static bool faulty_rw(uint64_t kind, uint64_t pos, uint64_t n)
{
    if (g_fault_pos == ~0ULL) return faulty(kind);
    if (g_fault != kind || g_hit || g_fault_pos < pos || g_fault_pos >= pos + n) return false;
    return g_hit = true;
}
static bool is(const char *a, const char *b) { return strcmp(a, b) == 0; }
static MStream *st(void *p)
{
    MStream *s = (MStream *)p;
    for (int i = 0; i < g_nstr; i++) if (s == &g_str[i] && s->open) return s;
    g_bad = true;
    fs_assert(0, "stream function called with a stream that is not open");
    return NULL;
}
extern "C" {
void *fsm_fopen(const char *name, const char *mode)
{
    if (!name || !mode) { fs_assert(0, "fopen with a null argument"); return NULL; }
    MFile *f = is(name, g_in.name) ? &g_in : is(name, g_out.name) ? &g_out : NULL;
    bool plus = strchr(mode, '+') != NULL;
    bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    if (!f) { fs_assert(mode[0] == 'r', "a file that was not named is created"); return NULL; }
    if (f == &g_in && faulty(F_OPEN_IN)) return NULL;
    if (f == &g_out && faulty(F_OPEN_OUT)) return NULL;
    if (mode[0] == 'r' && !f->exists) return NULL;
    if (g_nstr >= 8) { fs_assert(0, "too many streams"); return NULL; }
    MStream *s = &g_str[g_nstr++];
    s->f = f; s->pos = 0; s->rd = rd; s->wr = wr; s->app = mode[0] == 'a'; s->open = true; s->err = s->eof = false;
    if (wr) f->opens_w++;
    if (mode[0] == 'w') { f->size = 0; }
    if (s->app) s->pos = f->size;
    f->exists = true;
    return s;
}
int fsm_fclose(void *p)
{
    MStream *s = st(p);
    if (!s) return EOF;
    s->open = false;
    if (s->wr && faulty(F_CLOSE_OUT)) return EOF;
    if (!s->wr && faulty(F_CLOSE_IN)) return EOF;
    return 0;
}
static int seekto(MStream *s, int64_t off, int wh)
{
    if (faulty(F_SEEK)) return -1;
    int64_t b = wh == 0 ? 0 : wh == 1 ? (int64_t)s->pos : (int64_t)s->f->size;
    if (b + off < 0) return -1;
    s->pos = (uint64_t)(b + off); s->eof = false;
    return 0;
}
int fsm_fseek(void *p, long off, int wh) { MStream *s = st(p); return s ? seekto(s, off, wh) : -1; }
int fsm_fseeko(void *p, long off, int wh) { return fsm_fseek(p, off, wh); }
void fsm_rewind(void *p) { MStream *s = st(p); if (s) { s->pos = 0; s->eof = s->err = false; } }
long fsm_ftell(void *p) { MStream *s = st(p); if (!s) return -1; if (faulty(F_TELL)) return -1; if (g_tell && s->f == &g_in && s->pos == s->f->size) return (long)g_tell; return (long)s->pos; }
long fsm_ftello(void *p) { return fsm_ftell(p); }
int fsm_feof(void *p) { MStream *s = st(p); return s && s->eof; }
int fsm_ferror(void *p) { MStream *s = st(p); return s && s->err; }
void fsm_clearerr(void *p) { MStream *s = st(p); if (s) s->eof = s->err = false; }
int fsm_fflush(void *p) { if (!p) return 0; MStream *s = st(p); if (!s) return EOF; if (s->wr && faulty(F_FLUSH)) { s->err = true; return EOF; } return 0; }
int fsm_setvbuf(void *p, char *, int, size_t) { st(p); return 0; }
size_t fsm_fread(void *dst, size_t sz, size_t cnt, void *p)
{
    MStream *s = st(p);
    if (!s || !sz || !cnt) return 0;
    uint64_t want = (uint64_t)sz * cnt, have = s->pos < s->f->size ? s->f->size - s->pos : 0;
    uint64_t n = want < have ? want : have;
    if (!s->rd || (s->err && !g_trans)) { s->err = true; return 0; }
    if (faulty_rw(F_READ, s->pos, n)) { n = !n ? 0 : partial(n, "short_read"); if (fs_choose(0, 1, "read_eof")) { s->f->size = s->pos + n; s->eof = true; } else s->err = true; }
    else if (n < want) s->eof = true;
    if (!g_sink && n) memcpy(dst, s->f->data + s->pos, n);
    if (g_sink && n) fs_touch(dst, n);
    s->pos += n;
    return n / sz;
}
int fsm_fgetc(void *p) { uint8_t c; return fsm_fread(&c, 1, 1, p) == 1 ? c : EOF; }
int fsm_getc(void *p) { return fsm_fgetc(p); }
size_t fsm_fwrite(const void *src, size_t sz, size_t cnt, void *p)
{
    MStream *s = st(p);
    if (!s || !sz || !cnt) return 0;
    uint64_t n = (uint64_t)sz * cnt;
    if (!s->wr || (s->err && !g_trans)) { s->err = true; return 0; }
    s->f->writes++;
    if (faulty_rw(F_WRITE, s->pos, n)) { n = partial(n, "short_write"); s->err = true; }
    if (s->app) s->pos = s->f->size;
    if (g_sink) {
        if (s->pos < 8 && n + s->pos <= 8) memcpy(g_sinkhdr + s->pos, src, n);
        else {
            const uint8_t *q = (const uint8_t *)src; uint64_t m = n;
            if (s->pos < 8) { memcpy(g_sinkhdr + s->pos, q, 8 - s->pos); q += 8 - s->pos; m -= 8 - s->pos; }
            if (g_sinkn && g_sinkp[g_sinkn - 1] + g_sinkl[g_sinkn - 1] == q) g_sinkl[g_sinkn - 1] += m;
            else if (g_sinkn < 64) { g_sinkp[g_sinkn] = q; g_sinkl[g_sinkn++] = m; }
            fs_touch(q, m);
        }
        s->pos += n; if (s->pos > s->f->size) s->f->size = s->pos;
        return n / sz;
    }
    for (uint64_t i = 0; i < n; i++) {
        fs_assert(s->pos < s->f->cap, "output larger than n+8 bytes");
        s->f->data[s->pos++] = ((const uint8_t *)src)[i];
        if (s->pos > s->f->size) s->f->size = s->pos;
    }
    return n / sz;
}
int fsm_fputc(int c, void *p) { uint8_t b = (uint8_t)c; return fsm_fwrite(&b, 1, 1, p) == 1 ? b : EOF; }
int fsm_putc(int c, void *p) { return fsm_fputc(c, p); }
int fsm_fputs(const char *t, void *p) { uint64_t n = strlen(t); return n == 0 || fsm_fwrite(t, 1, n, p) == n ? 1 : EOF; }
int fsm_remove(const char *name) { MFile *f = is(name, g_in.name) ? &g_in : is(name, g_out.name) ? &g_out : NULL; fs_assert(f != &g_in, "the input file is removed"); if (f) f->exists = false; return f ? 0 : -1; }
int fsm_unlink(const char *name) { return fsm_remove(name); }
struct FsExit { int code; };
void fsm_exit(int c) { throw FsExit{c}; }
}
static int open_streams() { int k = 0; for (int i = 0; i < g_nstr; i++) k += g_str[i].open; return k; }
static int open_inputs() { int k = 0; for (int i = 0; i < g_nstr; i++) k += g_str[i].open && g_str[i].f == &g_in; return k; }
// short names, or (param names) names of many lengths that agree but for the last characters
static char g_nin[4200], g_nout[4200];
static void set_names()
{
    static const uint16_t len[] = {1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095};
    strcpy(g_nin, "in.bin"); strcpy(g_nout, "out.bwt");
    if (fs_param("names", 0)) {
        uint64_t a = len[fs_choose(0, 15, "name_length")], b = a + fs_choose(0, 1, "longer");
        for (uint64_t i = 0; i < 4100; i++) g_nin[i] = g_nout[i] = i % 50 == 49 ? '/' : i % 7 == 3 ? ' ' : i % 7 == 4 ? (char)0xc3 : i % 7 == 5 ? '%' : 'd';
        g_nin[a - 1] = 'i'; g_nin[a] = 0; g_nout[b - 1] = 'o'; g_nout[b] = 0;
    }
    g_in.name = g_nin; g_out.name = g_nout;
}
// input of n symbolic bytes; the output exists beforehand or not
static void model_setup(uint64_t n, uint64_t alpha)
{
    set_names();
    g_in.exists = true; g_in.size = g_in.cap = n; g_in.data = (uint8_t *)malloc(n ? n : 1);
    fs_sym(g_in.data, n, "F");
    restrict_bytes(g_in.data, n, alpha);
    uint64_t old = fs_choose(0, 2, "old_output");
    g_out.cap = n + 16; g_out.data = (uint8_t *)malloc(g_out.cap);
    g_out.exists = old != 0; g_out.size = old == 2 ? n + 12 : old == 1 ? 3 : 0;
    for (uint64_t i = 0; i < g_out.cap; i++) g_out.data[i] = 0xEE;
}
static void model_done() { free(g_in.data); free(g_out.data); }
