#include "fmodel.h"
#include "flbwt.hpp"
#include <stdexcept>
#include <new>

// bwt_string as seen by bwt_file: the real one, or (big mode) a result of arbitrary rank
static uint8_t *g_fake_src = NULL; // the bytes bwt_string has to be given
static uint8_t fake_row(uint64_t i) { return (uint8_t)(i * 167 + (i >> 8) * 29 + (i >> 16)); }
static bool g_called = false; // the stand-in was used: otherwise its result is not judged
static bool g_fake = false; static uint64_t g_fake_last, g_fake_n; static uint8_t *g_fake_bwt;
extern "C" flbwt::BWT_result *fsw_bwt_string(uint8_t *T, const uint64_t n, bool free_T)
{
    if (!g_fake) return flbwt::bwt_string(T, n, free_T);
    g_called = true;
    fs_assert(n == g_fake_n, "bwt_file passes the file size");
    fs_assert(T != NULL, "bwt_file passes a buffer");
    fs_assert(T[n] == 0, "the buffer is terminated");
    if (g_fake_src) fs_assert(memcmp(T, g_fake_src, n) == 0, "the text is the content of the file");
    if (free_T) free(T);
    flbwt::BWT_result *r = (flbwt::BWT_result *)malloc(sizeof *r);
    r->last = g_fake_last;
    r->BWT = g_fake_bwt = new uint8_t[n + 1];
    if (g_fake_src) for (uint64_t i = 0; i <= n; i++) g_fake_bwt[i] = fake_row(i);
    return r;
}
static int run()
{
    try { flbwt::bwt_file(g_in.name, g_out.name); return 0; }
    catch (std::exception &) { return 1; }
    catch (FsExit &) { return 3; }
    catch (...) { return 2; }
}
static void check_output(uint64_t n)
{
    fs_assert(g_out.exists && g_out.size == n + 8, "the output has exactly n+8 bytes");
    uint64_t sa[32], row = 0;
    oracle_sort(g_in.data, n, sa);
    for (uint64_t k = 0; k <= n; k++) if (sa[k] == 0) row = k;
    for (int i = 0; i < 8; i++) fs_assert(g_out.data[i] == (uint8_t)(row >> (56 - 8 * i)), "the header is the row of the whole string, big-endian");
    uint64_t p = 8;
    for (uint64_t k = 0; k <= n; k++) if (k != row) { fs_assert(g_out.data[p] == g_in.data[sa[k] - 1], "the body is the transform without that row"); p++; }
}
// C03: format of the output
extern "C" void h_file()
{
    uint64_t n = fs_choose(fs_param("nmin", 1), fs_param("nmax", 4), "n");
    uint64_t base = fs_heap_live();
    model_setup(n, fs_param("alpha", 0));
    uint8_t *keep = (uint8_t *)malloc(n);
    memcpy(keep, g_in.data, n);
    int how = run();
    fs_assert(how == 0, "a readable file is transformed");
    for (uint64_t i = 0; i < n; i++) fs_assert(g_in.data[i] == keep[i] && g_in.size == n, "the input file is not changed");
    check_output(n);
    fs_assert(open_streams() == 0, "every stream is closed");
    fs_assert(g_in.opens_w == 0, "the input is not opened for writing");
    for (uint64_t i = 0; i < n + 8; i++) fs_observe("o", g_out.data[i]);
    model_done(); free(keep);
    fs_assert(fs_heap_live() == base, "bwt_file retains no storage");
    fs_reach("output compared");
}
// C03 when the output path is the input path
extern "C" void h_file_same()
{
    uint64_t n = fs_choose(1, fs_param("nmax", 4), "n");
    uint64_t base = fs_heap_live();
    set_names();
    g_in.exists = true; g_in.size = n; g_in.cap = n + 16; g_in.data = (uint8_t *)malloc(n + 16);
    fs_sym(g_in.data, n, "F");
    restrict_bytes(g_in.data, n, fs_param("alpha", 0));
    uint8_t *keep = (uint8_t *)malloc(n);
    memcpy(keep, g_in.data, n);
    int how = 0;
    try { flbwt::bwt_file(g_in.name, g_in.name); } catch (...) { how = 1; }
    fs_assert(how == 0, "a readable file is transformed in place");
    g_out = g_in; g_in.data = keep; g_in.size = n;
    check_output(n);
    fs_assert(open_streams() == 0, "every stream is closed");
    for (uint64_t i = 0; i < n + 8; i++) fs_observe("o", g_out.data[i]);
    model_done();
    fs_assert(fs_heap_live() == base, "bwt_file retains no storage");
    fs_reach("output compared");
}
// C03 for sizes no real run can reach: rank and body split for any n, any rank
extern "C" void h_file_big()
{
    static const uint64_t sizes[] = {1, 2, 255, 256, 257, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x1234567890ULL, 0x2000000000ULL};
    uint64_t n = fs_choose(0, fs_param("sizes", 16) + fs_param("small", 70) - 1, "n");
    n = n < (uint64_t)fs_param("sizes", 16) ? sizes[n] : n - fs_param("sizes", 16) + 1;
    set_names(); g_in.exists = true; g_in.size = n; g_out.exists = false;
    g_sink = true; g_fake = true; g_fake_n = n;
    g_fake_last = fs_range(1, n, "last");
    int how = run();
    if (g_fake && how == 0 && !g_called) return;
    fs_assert(how == 0, "a readable file is transformed");
    fs_assert(g_out.size == n + 8, "the output has exactly n+8 bytes");
    for (int i = 0; i < 8; i++) fs_assert(g_sinkhdr[i] == (uint8_t)(g_fake_last >> (56 - 8 * i)), "the header is the rank, big-endian");
    // the body is rows 0..last-1 then last+1..n
    uint64_t a = 0, b = 0;
    const uint8_t *pa = NULL, *pb = NULL;
    // judged only when the pieces come straight from the transform (a copy is beyond this harness)
    int direct = g_sinkn <= 2;
    for (uint64_t k = 0; k < g_sinkn; k++) direct &= g_sinkp[k] >= g_fake_bwt && g_sinkp[k] <= g_fake_bwt + n;
    if (!direct) { fs_reach("body not written in place"); return; }
    if (g_sinkn >= 1) { pa = g_sinkp[0]; a = g_sinkl[0]; }
    if (g_sinkn >= 2) { pb = g_sinkp[1]; b = g_sinkl[1]; }
    if (g_sinkn == 2) { fs_assert(pa == g_fake_bwt && a == g_fake_last, "rows before the rank"); fs_assert(pb == g_fake_bwt + g_fake_last + 1 && b == n - g_fake_last, "rows after the rank"); fs_reach("two parts"); }
    else { fs_assert(a == n && pa == g_fake_bwt && g_fake_last == n, "all rows before the rank"); fs_reach("one part"); }
    fs_assert(open_streams() == 0, "every stream is closed");
}
// C03 around the sizes of buffers: content and place of every byte, for a transform of chosen rank
extern "C" void h_file_mid()
{
    static const uint64_t base[] = {512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 100000, 131072, 262144, 1000000, 1048576};
    uint64_t b = base[fs_choose(fs_param("lo", 0), fs_param("hi", 8), "base")], n = b - 1 + fs_choose(0, 2, "off"), ranks = fs_param("ranks", 0);
    if (!ranks && fs_choose(0, 1, "header")) n -= 8; // the file with its header has that size
    uint64_t live = fs_heap_live();
    set_names();
    g_in.exists = true; g_in.size = g_in.cap = n; g_in.data = (uint8_t *)malloc(n);
    for (uint64_t i = 0; i < n; i++) g_in.data[i] = (uint8_t)(i * 31 + (i >> 8) * 7 + (i >> 16));
    g_out.exists = fs_choose(0, 1, "old_output"); g_out.cap = n + 16; g_out.data = (uint8_t *)malloc(g_out.cap); g_out.size = g_out.exists ? n + 12 : 0;
    g_fake = true; g_fake_n = n; g_fake_src = g_in.data;
    static const uint64_t rk[] = {1, 2, 512, 4088, 4096, 65536};
    uint64_t r = fs_choose(0, ranks ? 8 * 10 - 1 : 9, "rank");
    if (ranks) { static const int d[] = {-17, -9, -8, -7, -2, -1, 0, 1}; g_fake_last = (r / 8 < 9 ? base[r / 8] : 256) + d[r % 8]; } // around every such size
    else g_fake_last = r < 6 ? rk[r] : r == 6 ? n / 2 : r == 7 ? n - 1 : r == 8 ? n : n - 8;
    if (g_fake_last < 1 || g_fake_last > n) { free(g_in.data); free(g_out.data); return; }
    int how = run();
    if (g_fake && how == 0 && !g_called) return;
    fs_assert(how == 0, "a readable file is transformed");
    fs_assert(g_out.size == n + 8, "the output has exactly n+8 bytes");
    for (int i = 0; i < 8; i++) fs_assert(g_out.data[i] == (uint8_t)(g_fake_last >> (56 - 8 * i)), "the header is the rank, big-endian");
    int ok = 1;
    for (uint64_t i = 0; i < n; i++) if (g_out.data[8 + i] != fake_row(i < g_fake_last ? i : i + 1)) { ok = 0; break; }
    fs_assert(ok, "the body is the rows in order without that of the whole string");
    fs_assert(open_streams() == 0, "every stream is closed");
    model_done();
    fs_assert(fs_heap_live() == live, "bwt_file retains no storage");
    fs_reach("output compared");
}
// C03 on longer contents
extern "C" void h_file_long()
{
    uint64_t n, base = fs_heap_live();
    uint8_t *T = make_text(&n);
    set_names();
    g_in.exists = true; g_in.size = g_in.cap = n; g_in.data = T;
    g_out.exists = fs_choose(0, 1, "old_output"); g_out.cap = n + 16; g_out.data = (uint8_t *)malloc(g_out.cap); g_out.size = g_out.exists ? n + 12 : 0;
    int how = run();
    fs_assert(how == 0, "a readable file is transformed");
    fs_assert(g_out.size == n + 8, "the output has exactly n+8 bytes");
    uint64_t row = 0;
    for (int i = 0; i < 8; i++) row = row << 8 | g_out.data[i];
    fs_assert(row >= 1 && row <= n, "the header is the row of the whole string, big-endian");
    uint8_t *B = (uint8_t *)malloc(n + 1);
    for (uint64_t i = 0; i <= n; i++) B[i] = i < row ? g_out.data[8 + i] : i > row ? g_out.data[7 + i] : 0;
    fs_assert(inverts_to(B, row, T, n), "the output inverts to the input file");
    fs_assert(open_streams() == 0, "every stream is closed");
    fs_observe("row", row);
    free(B); free(T); free(g_out.data);
    fs_assert(fs_heap_live() == base, "bwt_file retains no storage");
    fs_reach("output compared");
}
// C04: the input side fails
extern "C" void h_fin()
{
    uint64_t n = fs_choose(0, fs_param("nmax", 3), "n"), base = fs_heap_live();
    model_setup(n, fs_param("alpha", 0));
    uint64_t kind = fs_choose(0, 7, "fault");
    static const uint64_t map[] = {F_NONE, F_OPEN_IN, F_SEEK, F_TELL, F_READ, F_NONE, F_NONE, F_NONE};
    static const uint64_t tell[] = {1, 2, 255, 256, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x3fffffffffffffffULL, 0x7ffffffffffffffeULL, 0x7fffffffffffffffULL};
    g_fault = map[kind];
    if (kind == 7) { g_tell = tell[fs_choose(0, fs_param("tells", 11), "reported_size")]; if (g_tell < 256) g_tell += n; } // more than there is
    g_fault_at = kind == 1 || kind == 7 ? 0 : fs_choose(0, 1, "occurrence");
    if (kind == 6) g_in.exists = false;
    if (kind == 4) g_trans = fs_choose(0, 1, "passing");
    MFile before = g_out;
    if (kind == 5) fs_fail_malloc(0);
    int how = run();
    fs_fail_malloc(-1);
    bool must = n == 0 || kind == 1 || kind == 5 || kind == 6 || kind == 7 || g_hit;
    if (!must) { fs_assert(how == 0, "a readable file is transformed"); check_output(n); fs_assert(open_inputs() == 0, "the input stream is closed on success"); fs_reach("no fault"); model_done(); return; }
    if (g_trans && g_hit && how == 0) { check_output(n); fs_reach("recovered"); model_done(); return; }
    // a failed seek may be worked around by other means only with the right result
    if ((kind == 2 || kind == 3) && how == 0) { check_output(n); fs_reach("recovered"); model_done(); return; }
    fs_assert(how == 1, "unusable input is reported by an exception");
    fs_assert(g_out.opens_w == 0 && g_out.writes == 0 && g_out.exists == before.exists && g_out.size == before.size, "the output path is left alone");
    for (uint64_t i = 0; i < g_out.cap; i++) fs_assert(g_out.data[i] == 0xEE, "no output byte is changed");
    if (kind == 5) fs_assert(open_inputs() == 0, "the input stream is closed when the buffer cannot be allocated");
    fs_observe("how", how);
    model_done();
    if (fs_param("leak", 0)) {
        fs_assert(open_streams() == 0, "no stream stays open after a failure");
        fs_assert(fs_heap_live() == base, "no storage is retained after a failure");
    }
    fs_reach("reported");
    if (kind == 4) fs_reach("short read");
    if (kind == 3) fs_reach("size unknown");
}
static const uint64_t g_sizes[] = {1, 2, 255, 256, 65536, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x2000000000ULL};
// C04 for sizes no real run reaches
extern "C" void h_fin_big()
{
    uint64_t n = g_sizes[fs_choose(0, 10, "n")];
    set_names(); g_in.exists = true; g_in.size = n; g_out.exists = fs_choose(0, 1, "old_output"); g_out.size = g_out.exists ? 77 : 0;
    MFile before = g_out;
    g_sink = true;
    static const uint64_t map[] = {F_READ, F_SEEK, F_TELL, F_NONE};
    uint64_t kind = fs_choose(0, fs_param("fake", 0) ? 0 : 3, "fault");
    g_fault = map[kind];
    if (fs_param("fake", 0)) { g_fake = true; g_fake_n = n; g_fake_last = 1; g_fault_pos = fs_choose(0, 1, "half") ? n / 2 : n - 1; }
    if (kind == 3) fs_fail_malloc(0);
    int how = run();
    if (g_fake && how == 0 && !g_called) return;
    fs_fail_malloc(-1);
    if (kind != 3 && !g_hit) return;
    fs_assert(how == 1, "unusable input is reported by an exception");
    fs_assert(g_out.opens_w == 0 && g_out.writes == 0 && g_out.exists == before.exists && g_out.size == before.size, "the output path is left alone");
    if (kind == 3) fs_assert(open_inputs() == 0, "the input stream is closed when the buffer cannot be allocated");
    fs_reach("reported");
}
// C05 for any size and any rank
extern "C" void h_fout_big()
{
    uint64_t n = g_sizes[fs_choose(0, 10, "n")];
    set_names(); g_in.exists = true; g_in.size = n; g_out.exists = false;
    g_sink = true; g_fake = true; g_fake_n = n;
    g_fake_last = fs_range(1, n, "last");
    uint64_t kind = fs_choose(0, 3, "fault");
    static const uint64_t map[] = {F_WRITE, F_OPEN_OUT, F_CLOSE_OUT, F_FLUSH};
    g_fault = map[kind];
    g_fault_at = kind == 0 ? fs_choose(0, 5, "occurrence") : 0;
    if (g_fault_at >= 4) g_fault_pos = g_fault_at == 4 ? 8 + n / 2 : n + 7; // later calls of a writer in pieces
    int how = run();
    if (g_fake && how == 0 && !g_called) return;
    if (kind == 1 || g_hit) { fs_assert(how == 1, "incomplete output is reported by an exception"); fs_reach("reported"); }
    else { fs_assert(how == 0, "complete output is success"); fs_assert(open_streams() == 0, "every stream is closed on success"); fs_reach("success"); }
}
// C05: the output side fails
extern "C" void h_fout()
{
    uint64_t n = fs_choose(1, fs_param("nmax", 3), "n");
    uint64_t base = fs_heap_live();
    model_setup(n, fs_param("alpha", 0));
    uint64_t kind = fs_choose(0, 4, "fault");
    static const uint64_t map[] = {F_NONE, F_OPEN_OUT, F_WRITE, F_CLOSE_OUT, F_FLUSH};
    g_fault = map[kind];
    g_fault_at = kind == 2 ? fs_choose(0, fs_param("occ", 11), "occurrence") : 0;
    if (kind == 2) g_trans = fs_choose(0, 1, "passing");
    int how = run();
    if (g_trans && g_hit && how == 0) { check_output(n); fs_reach("recovered"); model_done(); return; } // written again
    if (kind == 1 || g_hit) { fs_assert(how == 1, "incomplete output is reported by an exception"); fs_reach("reported"); if (kind == 2) fs_reach("short write"); if (kind == 3) fs_reach("failed close"); }
    else {
        fs_assert(how == 0, "complete output is success");
        check_output(n);
        fs_assert(open_streams() == 0, "every stream is closed on success");
        model_done();
        fs_assert(fs_heap_live() == base, "no storage is retained on success");
        fs_reach("success");
        return;
    }
    fs_observe("how", how);
    model_done();
    if (fs_param("leak", 0)) {
        fs_assert(open_streams() == 0, "no stream stays open after a failure");
        fs_assert(fs_heap_live() == base, "no storage is retained after a failure");
    }
}
// C04, C05 around the sizes of buffers: a call in the middle or at the end of the transfer fails
extern "C" void h_fault_mid()
{
    static const uint64_t base[] = {600, 5000, 65536, 65537, 70000, 131072, 200000, 1048577};
    uint64_t n = base[fs_choose(0, fs_param("hi", 5), "n")];
    set_names();
    g_in.exists = true; g_in.size = g_in.cap = n; g_in.data = (uint8_t *)malloc(n);
    for (uint64_t i = 0; i < n; i++) g_in.data[i] = (uint8_t)(i * 31 + (i >> 8) * 7);
    g_out.exists = fs_choose(0, 1, "old_output"); g_out.cap = n + 16; g_out.data = (uint8_t *)malloc(g_out.cap); g_out.size = g_out.exists ? n + 12 : 0;
    MFile before = g_out;
    g_few = true;
    g_fake = true; g_fake_n = n; g_fake_src = g_in.data;
    static const uint64_t pos[] = {0, 511, 4095, 4096, 65535, 65536};
    bool out = fs_param("out", 0);
    g_fault = out ? F_WRITE : F_READ;
    uint64_t p = fs_choose(0, 8, "at");
    g_fault_pos = p < 6 ? pos[p] : p == 6 ? n / 2 : p == 7 ? n - 1 : n - 4096;
    if (out) { g_fault_pos += 8; g_fake_last = fs_choose(0, 1, "row") ? n : n / 3 + 1; }
    else g_fake_last = 1;
    if (g_fault_pos >= n + (out ? 8 : 0)) { free(g_in.data); free(g_out.data); return; }
    g_trans = fs_choose(0, 1, "passing");
    int how = run();
    if (g_fake && how == 0 && !g_called) return;
    if (how == 0 && g_trans) {
        // complete all the same: what was not transferred has been transferred again
        int ok = g_out.size == n + 8;
        for (int i = 0; ok && i < 8; i++) ok = g_out.data[i] == (uint8_t)(g_fake_last >> (56 - 8 * i));
        for (uint64_t i = 0; ok && i < n; i++) ok = g_out.data[8 + i] == fake_row(i < g_fake_last ? i : i + 1);
        fs_assert(ok, out ? "incomplete output is reported by an exception" : "unusable input is reported by an exception");
        model_done();
        return;
    }
    fs_assert(how == 1, out ? "incomplete output is reported by an exception" : "unusable input is reported by an exception");
    if (!out) fs_assert(g_out.opens_w == 0 && g_out.writes == 0 && g_out.exists == before.exists && g_out.size == before.size, "the output path is left alone");
    fs_observe("how", how);
    model_done();
    fs_reach("reported");
}
// C26 for bwt_file
extern "C" void h_foom()
{
    uint64_t n = fs_choose(1, fs_param("nmax", 3), "n");
    model_setup(n, fs_param("alpha", 0));
    bool all = fs_choose(0, 1, "for_good");
    uint64_t k = fs_choose(fs_param("kmin", 0), fs_param("kmax", 900), "k");
    if (all) fs_fail_from((int64_t)k); else fs_fail_malloc((int64_t)k);
    int how = run();
    fs_fail_malloc(-1);
    if (how == 0) { check_output(n); fs_reach("enough memory"); }
    else { fs_assert(how == 1, "lack of memory is reported by a standard exception"); fs_reach("reported"); }
    fs_observe("how", how);
    model_done();
}
// C07 for bwt_file: nothing is retained on success
extern "C" void h_fown()
{
    uint64_t n = fs_choose(1, fs_param("nmax", 4), "n");
    uint64_t base = fs_heap_live();
    model_setup(n, fs_param("alpha", 0));
    int how = run();
    fs_assert(how == 0, "a readable file is transformed");
    fs_assert(open_streams() == 0, "every stream is closed");
    model_done();
    fs_assert(fs_heap_live() == base, "bwt_file retains no storage");
    fs_reach("ownership checked");
}
#ifdef WITH_CLI
extern "C++" int fs_cli_main(int argc, char *argv[]);
// C23: the program
extern "C" void h_cli()
{
    uint64_t n = fs_choose(1, fs_param("nmax", 3), "n");
    model_setup(n, fs_param("alpha", 0));
    int argc = (int)fs_choose(0, fs_param("args", 6), "argc");
    // extra arguments are arbitrary, including empty strings and names of the files
    char a0[] = "bwt", *a1 = g_nin, *a2 = g_nout, a3[3];
    fs_sym(a3, 2, "arg"); a3[2] = 0;
    char *argv[9] = {a0, a1, a2, a3, a3, a1, a2, a3, 0};
    argv[argc] = 0;
    int st = -1, how = 0;
    MFile before = g_out;
    try { st = fs_cli_main(argc, argv); }
    catch (FsExit &e) { st = e.code; how = 1; }
    catch (std::exception &) { how = 2; }
    if (argc == 3) {
        fs_assert(how != 2, "a readable file is transformed");
        fs_assert((st & 0xff) == 0, "exit status 0");
        check_output(n);
        fs_reach("transformed");
    } else {
        fs_assert(how == 2 || (st & 0xff) != 0, "wrong number of arguments: non-zero exit status");
        fs_assert(g_nstr == 0, "wrong number of arguments: no file is touched");
        fs_assert(g_out.size == before.size && g_out.exists == before.exists, "wrong number of arguments: the output is left alone");
        fs_reach("refused");
    }
    fs_observe("st", (uint64_t)(uint32_t)st);
    model_done();
}
// with two arguments, a failure of the transform is not reported as success
extern "C" void h_cli_fail()
{
    uint64_t n = fs_choose(0, 2, "n");
    model_setup(n, 0);
    char a0[] = "bwt", *a1 = g_nin, *a2 = g_nout;
    char *argv[4] = {a0, a1, a2, 0};
    uint64_t kind = fs_choose(0, 3, "fault");
    static const uint64_t map[] = {F_NONE, F_OPEN_IN, F_OPEN_OUT, F_WRITE};
    g_fault = map[kind];
    int st = 0, how = 0;
    try { st = fs_cli_main(3, argv); }
    catch (FsExit &e) { st = e.code; }
    catch (...) { how = 2; }
    bool bad = n == 0 || kind != 0;
    if (bad) { fs_assert(how == 2 || (st & 0xff) != 0, "a failed transform does not exit with status 0"); fs_reach("failed"); }
    else { fs_assert(how == 0 && st == 0, "exit status 0"); fs_reach("ok"); }
    model_done();
}
#endif
