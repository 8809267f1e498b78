// C12: Queue behaves as a sequence
#include "fs.h"
#include "queue.hpp"
#include <stdlib.h>

static uint64_t *q; static uint64_t qh, qt; // reference: q[qh..qt)
static const uint64_t CAP = 20000;
static const uint64_t pre[] = {0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049};

extern "C" void h_queue()
{
    uint64_t base = fs_heap_live();
    q = (uint64_t *)malloc(CAP * sizeof *q); qh = qt = CAP / 2;
    static const unsigned ws[] = {1, 7, 8, 12, 31, 33, 48, 63, 64, 3, 10, 17, 40, 56, 32, 16};
    unsigned w = ws[fs_choose(0, fs_param("widths", 4) - 1, "w")];
    uint64_t m = w < 64 ? (1ULL << w) - 1 : ~0ULL;
    flbwt::Queue *Q = new flbwt::Queue((uint8_t)w);
    uint64_t np = fs_param("npre", 10);
    uint64_t a = pre[fs_choose(0, np - 1, "pre_end")], b = pre[fs_choose(0, np - 1, "pre_front")];
    bool frontfirst = fs_choose(0, fs_param("order", 1), "order");
    uint64_t x = 88172645463325252ULL;
    for (int r = 0; r < 2; r++) {
        if ((r == 0) == frontfirst) for (uint64_t i = 0; i < b; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; Q->enqueue_l(x & m); q[--qh] = x & m; }
        else for (uint64_t i = 0; i < a; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; Q->enqueue(x & m); q[qt++] = x & m; }
    }
    // leave a chosen number of elements (or drain)
    uint64_t tot = qt - qh;
    uint64_t keep = fs_choose(0, fs_param("keeps", 5), "keep"), drop = 0;
    static const uint64_t left[] = {1u << 30, 0, 1, 2, 1023, 1024, 1025};
    if (left[keep] < tot) drop = tot - left[keep];
    for (uint64_t i = 0; i < drop; i++) { uint64_t e = q[qh++]; uint64_t g = (uint64_t)Q->dequeue(); fs_assert(g == e, "dequeue returns the front element"); }
    // symbolic operations with symbolic values
    uint64_t ops = fs_param("ops", 3);
    for (uint64_t k = 0; k < ops; k++) {
        fs_assert(Q->is_empty() == (qh == qt), "is_empty is true exactly when nothing is left");
        uint64_t op = fs_choose(0, 2, "op");
        if (op == 2) {
            if (qh == qt) { fs_reach("empty"); continue; }
            uint64_t g = (uint64_t)Q->dequeue();
            fs_assert(g == q[qh], "dequeue returns the front element");
            qh++;
        } else {
            uint64_t v = fs_u64("v") & m;
            if (op == 0) { Q->enqueue(v); q[qt++] = v; } else { Q->enqueue_l(v); q[--qh] = v; }
        }
    }
    bool drain = fs_choose(0, 1, "drain");
    if (drain) {
        uint64_t h = 0;
        while (qh != qt) {
            fs_assert(!Q->is_empty(), "is_empty is false while elements are left");
            uint64_t g = (uint64_t)Q->dequeue();
            fs_assert(g == q[qh], "dequeue returns the front element");
            h = h * 31 + g;
            qh++;
        }
        fs_assert(Q->is_empty(), "is_empty is true when nothing is left");
        // refill after having been emptied
        for (uint64_t k = 0; k < 2; k++) { uint64_t v = fs_u64("r") & m; if (fs_param("refill", 0)) Q->enqueue_l(v); else Q->enqueue(v); q[qt++] = v; }
        uint64_t g1 = (uint64_t)Q->dequeue(), g2 = (uint64_t)Q->dequeue();
        if (fs_param("refill", 0)) { uint64_t t = g1; g1 = g2; g2 = t; }
        fs_assert(g1 == q[qh] && g2 == q[qh + 1], "the queue works after it was emptied");
        fs_assert(Q->is_empty(), "is_empty is true when nothing is left");
        fs_observe("g1", g1); fs_observe("h", h);
        fs_reach("drained");
    }
    delete Q;
    free(q);
    fs_assert(fs_heap_live() == base, "the queue releases all its storage");
    fs_reach("released");
}
// bursts of one kind of operation, lengths around the block size
extern "C" void h_queue_ops()
{
    uint64_t base = fs_heap_live();
    const uint64_t cap = 40000;
    q = (uint64_t *)malloc(cap * sizeof *q); qh = qt = cap / 2;
    static const uint64_t ls[] = {1, 1023, 1024, 1025, 2049};
    unsigned w = (unsigned)fs_param("w", 21);
    uint64_t m = (1ULL << w) - 1, x = 88172645463325252ULL;
    flbwt::Queue *Q = new flbwt::Queue((uint8_t)w);
    for (long r = 0; r < fs_param("bursts", 4); r++) {
        uint64_t op = fs_choose(0, 2, "op"), k = ls[fs_choose(0, fs_param("sizes", 5) - 1, "len")];
        fs_assert(Q->is_empty() == (qh == qt), "is_empty is true exactly when nothing is left");
        for (uint64_t i = 0; i < k; i++) {
            if (op == 2) {
                if (qh == qt) break;
                uint64_t g = (uint64_t)Q->dequeue();
                fs_assert(g == q[qh], "dequeue returns the front element");
                qh++;
            } else {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                uint64_t v = x & m;
                if (op == 0) { Q->enqueue(v); q[qt++] = v; } else { Q->enqueue_l(v); q[--qh] = v; }
            }
        }
    }
    if (fs_choose(0, 1, "drain")) {
        while (qh != qt) {
            fs_assert(!Q->is_empty(), "is_empty is false while elements are left");
            uint64_t g = (uint64_t)Q->dequeue();
            fs_assert(g == q[qh], "dequeue returns the front element");
            qh++;
        }
        fs_assert(Q->is_empty(), "is_empty is true when nothing is left");
    }
    delete Q;
    free(q);
    fs_assert(fs_heap_live() == base, "the queue releases all its storage");
    fs_reach("released");
}
