#include "expr.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <map>
#include <deque>

std::vector<SymInfo> g_syms;
Z3_context g_z3;
uint32_t g_arrays = 0;
static std::deque<Expr> pool;
static std::deque<AList> apool;
static uint32_t nextAl = 0;
uint64_t exprCount() { return pool.size(); }

// ---------------------------------------------------------------- support sets
static std::deque<SupSet> supPool;
static std::map<std::vector<uint32_t>, const SupSet *> supIntern;
static std::map<std::pair<const SupSet *, const SupSet *>, const SupSet *> supMemo;
const SupSet *g_emptySup;
static const SupSet *internSup(const std::vector<uint32_t> &v)
{
    auto it = supIntern.find(v);
    if (it != supIntern.end()) return it->second;
    supPool.push_back(SupSet{v});
    return supIntern[v] = &supPool.back();
}
const SupSet *supUnion(const SupSet *a, const SupSet *b)
{
    if (a == b || b->ids.empty()) return a;
    if (a->ids.empty()) return b;
    if (a > b) std::swap(a, b);
    auto it = supMemo.find({a, b});
    if (it != supMemo.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
    return supMemo[{a, b}] = internSup(r);
}
void initExpr() { g_emptySup = internSup({}); }

// ---------------------------------------------------------------- hash consing
struct Key { Op op; uint8_t w, lo; uint64_t c; const void *a, *b, *d;
    bool operator==(const Key &k) const { return op == k.op && w == k.w && lo == k.lo && c == k.c && a == k.a && b == k.b && d == k.d; } };
struct KeyH { size_t operator()(const Key &k) const {
    uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ULL ^ ((uint64_t)k.w << 8 | k.lo) * 0xC2B2AE3D27D4EB4FULL;
    h = (h ^ k.c) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29;
    h = (h ^ (uint64_t)k.a) * 0xBF58476D1CE4E5B9ULL; h ^= h >> 31;
    h = (h ^ (uint64_t)k.b) * 0x94D049BB133111EBULL; h ^= h >> 29;
    h = (h ^ (uint64_t)k.d) * 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
    return h; } };
// open addressing; the full hash decides rehashing without touching the nodes
struct Slot { uint64_t h; E e; };
static std::vector<Slot> table(1 << 12);
static size_t tableN = 0;
static inline bool sameKey(const Expr *e, const Key &k)
{
    return e->op == k.op && e->w == k.w && e->lo == k.lo && e->c == k.c && e->a == k.a && e->b == k.b && (e->al ? (const void *)e->al : (const void *)e->d) == k.d;
}
static void growTable()
{
    std::vector<Slot> n(table.size() * 2);
    size_t m = n.size() - 1;
    for (auto &s : table) if (s.e) { size_t i = s.h & m; while (n[i].e) i = (i + 1) & m; n[i] = s; }
    table.swap(n);
}

uint64_t foldbin(Op op, unsigned w, uint64_t a, uint64_t b)
{
    uint64_t m = maskw(w);
    a &= m; b &= m;
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (uint64_t)(sext64(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sext64(a, w) < sext64(b, w);
    case SLE: return sext64(a, w) <= sext64(b, w);
    default: abort();
    }
}

static void attrs(Expr &e)
{
    uint64_t m = maskw(e.w);
    e.kz = e.ko = 0; e.umin = 0; e.umax = m;
    bool range = false;
    switch (e.op) {
    case CONST: e.ko = e.c; e.kz = ~e.c & m; break;
    case AND: e.kz = e.a->kz | e.b->kz; e.ko = e.a->ko & e.b->ko; e.umax = std::min(e.a->umax, e.b->umax); range = true; break;
    case OR: e.kz = e.a->kz & e.b->kz; e.ko = e.a->ko | e.b->ko; e.umin = std::max(e.a->umin, e.b->umin); range = true; break;
    case XOR: e.kz = (e.a->kz & e.b->kz) | (e.a->ko & e.b->ko); e.ko = (e.a->kz & e.b->ko) | (e.a->ko & e.b->kz); break;
    case ZEXT: e.kz = e.a->kz | (m & ~maskw(e.a->w)); e.ko = e.a->ko; e.umin = e.a->umin; e.umax = e.a->umax; range = true; break;
    case SEXT: {
        uint64_t sb = 1ULL << (e.a->w - 1), up = m & ~maskw(e.a->w);
        e.kz = e.a->kz | ((e.a->kz & sb) ? up : 0); e.ko = e.a->ko | ((e.a->ko & sb) ? up : 0);
        break; }
    case CONCAT: e.kz = e.b->kz | (e.a->kz << e.b->w); e.ko = e.b->ko | (e.a->ko << e.b->w);
        e.umin = (e.a->umin << e.b->w) + e.b->umin; e.umax = (e.a->umax << e.b->w) + e.b->umax; range = true; break;
    case EXTRACT: e.kz = (e.a->kz >> e.lo) & m; e.ko = (e.a->ko >> e.lo) & m;
        if (e.a->umax <= (e.lo + e.w >= 64 ? ~0ULL : maskw(e.lo + e.w))) { e.umin = e.a->umin >> e.lo; e.umax = e.a->umax >> e.lo; range = true; }
        break;
    case ITE: e.kz = e.a->kz & e.b->kz; e.ko = e.a->ko & e.b->ko; e.umin = std::min(e.a->umin, e.b->umin); e.umax = std::max(e.a->umax, e.b->umax); range = true; break;
    case ADD: {
        // low trailing known zeros
        unsigned tz = 0; while (tz < e.w && (e.a->kz >> tz & 1) && (e.b->kz >> tz & 1)) tz++;
        e.kz = tz ? maskw(tz) : 0;
        uint64_t hi;
        if (!__builtin_add_overflow(e.a->umax, e.b->umax, &hi) && hi <= m) { e.umin = e.a->umin + e.b->umin; e.umax = hi; range = true; }
        break; }
    case SUB: {
        unsigned tz = 0; while (tz < e.w && (e.a->kz >> tz & 1) && (e.b->kz >> tz & 1)) tz++;
        e.kz = tz ? maskw(tz) : 0;
        if (e.a->umin >= e.b->umax) { e.umin = e.a->umin - e.b->umax; e.umax = e.a->umax - e.b->umin; range = true; }
        break; }
    case MUL: {
        unsigned t1 = 0, t2 = 0; while (t1 < e.w && (e.a->kz >> t1 & 1)) t1++; while (t2 < e.w && (e.b->kz >> t2 & 1)) t2++;
        unsigned tz = std::min<unsigned>(e.w, t1 + t2); e.kz = tz ? maskw(tz) : 0;
        uint64_t hi;
        if (!__builtin_mul_overflow(e.a->umax, e.b->umax, &hi) && hi <= m) { e.umin = e.a->umin * e.b->umin; e.umax = hi; range = true; }
        break; }
    case UDIV: if (isC(e.b) && e.b->c) { e.umin = e.a->umin / e.b->c; e.umax = e.a->umax / e.b->c; range = true; } break;
    case UREM: if (isC(e.b) && e.b->c) { e.umax = std::min(e.b->c - 1, e.a->umax); range = true; } break;
    case LSHR: e.umax = e.a->umax; range = true; break;
    default: break;
    }
    // combine bits and range
    e.umin = std::max(e.umin, e.ko);
    e.umax = std::min(e.umax, m & ~e.kz);
    if (range) { // leading zeros from range
        unsigned hb = e.umax ? 64 - __builtin_clzll(e.umax) : 0;
        e.kz |= m & ~maskw(hb ? hb : 0) ;
        if (hb == 0) e.kz = m;
    }
}

static E intern(Op op, unsigned w, unsigned lo, uint64_t c, E a, E b, E d, const AList *al = nullptr)
{
    Key k{op, (uint8_t)w, (uint8_t)lo, c, a, b, al ? (const void *)al : (const void *)d};
    uint64_t h = KeyH()(k);
    size_t msk = table.size() - 1, ix = h & msk;
    while (table[ix].e) { if (table[ix].h == h && sameKey(table[ix].e, k)) return table[ix].e; ix = (ix + 1) & msk; }
    pool.push_back(Expr{op, (uint8_t)w, (uint8_t)lo, 0, (uint32_t)pool.size(), c, a, b, d, al, 0, 0, 0, 0, nullptr, nullptr, 0, 0});
    Expr &e = pool.back();
    if (op == SYM) e.sup = internSup({(uint32_t)c});
    else {
        const SupSet *s = g_emptySup;
        if (a) s = supUnion(s, a->sup);
        if (b) s = supUnion(s, b->sup);
        if (d) s = supUnion(s, d->sup);
        if (al) s = supUnion(s, al->sup);
        e.sup = s;
    }
    if (w >= 32) {
        unsigned m = std::max(a ? a->nd : 0, std::max(b ? b->nd : 0, d ? d->nd : 0)) + (op == ITE);
        e.nd = m > 200 ? 200 : m;
    }
    attrs(e);
    table[ix] = Slot{h, &e};
    if (++tableN * 3 > table.size() * 2) growTable();
    return &e;
}

E mkC(unsigned w, uint64_t v) { return intern(CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
E mkSym(unsigned w, const std::string &name, bool input)
{
    g_syms.push_back(SymInfo{name, (uint8_t)w, input});
    return intern(SYM, w, 0, g_syms.size() - 1, nullptr, nullptr, nullptr);
}

static inline E known(E e) { // fold fully known expressions
    if (e->op != CONST && (e->kz | e->ko) == maskw(e->w)) return mkC(e->w, e->ko);
    if (e->op != CONST && e->umin == e->umax) return mkC(e->w, e->umin);
    return e;
}
static inline E raw(Op op, unsigned w, E a, E b) { return known(intern(op, w, 0, 0, a, b, nullptr)); }

E mkNot(E x)
{
    if (isC(x)) return mkC(1, !x->c);
    switch (x->op) {
    case XOR: if (isC(x->b) && x->b->c == 1) return x->a; break;
    case ULT: return mkBin(ULE, x->b, x->a);
    case ULE: return mkBin(ULT, x->b, x->a);
    case SLT: return mkBin(SLE, x->b, x->a);
    case SLE: return mkBin(SLT, x->b, x->a);
    default: break;
    }
    return raw(XOR, 1, x, mkC(1, 1));
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return mkC(w, hi->c << lo->w | lo->c);
    if (isC(hi) && hi->c == 0) return mkZext(lo, w);
    if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->op == ZEXT && hi->w > hi->a->w) return mkZext(mkConcat(hi->a, lo), w);
    // merge adjacent slices
    auto src = [](E e, E &s, unsigned &l) { if (e->op == EXTRACT) { s = e->a; l = e->lo; } else { s = e; l = 0; } };
    auto tryMerge = [&](E h, E l) -> E {
        if (isC(h) && isC(l)) return mkC(h->w + l->w, h->c << l->w | l->c);
        E s1, s2; unsigned l1, l2; src(h, s1, l1); src(l, s2, l2);
        if (h->op == EXTRACT && s1 == s2 && l1 == l2 + l->w) return mkExtract(s1, l2, h->w + l->w);
        return nullptr;
    };
    E m = tryMerge(hi, lo);
    if (m) return m;
    if (lo->op == CONCAT) {
        m = tryMerge(hi, lo->a);
        if (m) return mkConcat(m, lo->b);
    }
    if (lo->op == ZEXT) { // make the zero padding explicit so that it can merge
        E z = mkC(lo->w - lo->a->w, 0);
        m = tryMerge(hi, z);
        if (m) return mkConcat(m, lo->a);
        if (isC(hi)) return mkConcat(mkC(hi->w + z->w, hi->c << z->w), lo->a);
        return known(intern(CONCAT, w, 0, 0, hi, known(intern(CONCAT, lo->w, 0, 0, z, lo->a, nullptr)), nullptr));
    }
    return known(intern(CONCAT, w, 0, 0, hi, lo, nullptr));
}

E mkExtract(E x, unsigned lo, unsigned w)
{
    if (lo == 0 && w == x->w) return x;
    if (isC(x)) return mkC(w, x->c >> lo);
    uint64_t m = maskw(w) << lo;
    if (((x->kz | x->ko) & m) == m) return mkC(w, x->ko >> lo);
    switch (x->op) {
    case EXTRACT: return mkExtract(x->a, x->lo + lo, w);
    case CONCAT: {
        unsigned lw = x->b->w;
        if (lo + w <= lw) return mkExtract(x->b, lo, w);
        if (lo >= lw) return mkExtract(x->a, lo - lw, w);
        return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
    }
    case ZEXT: {
        unsigned lw = x->a->w;
        if (lo + w <= lw) return mkExtract(x->a, lo, w);
        if (lo >= lw) return mkC(w, 0);
        return mkZext(mkExtract(x->a, lo, lw - lo), w);
    }
    case SEXT: {
        unsigned lw = x->a->w;
        if (lo + w <= lw) return mkExtract(x->a, lo, w);
        if (lo < lw) return mkSext(mkExtract(x->a, lo, lw - lo), w);
        break;
    }
    case ITE: return mkIte(x->d, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
    case AND: case OR: case XOR: return mkBin(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
        break;
    default: break;
    }
    return known(intern(EXTRACT, w, lo, 0, x, nullptr, nullptr));
}

E mkZext(E x, unsigned w)
{
    if (w == x->w) return x;
    if (isC(x)) return mkC(w, x->c);
    if (x->op == ZEXT) return mkZext(x->a, w);
    // strip known zero high bits to a canonical narrow core
    unsigned top = x->w;
    while (top > 1 && (x->kz >> (top - 1) & 1)) top--;
    if (top < x->w && x->op != ADD && x->op != SUB && x->op != MUL && x->op != UREM && x->op != UDIV && x->op != SYM && x->op != AREAD && x->op != LSHR)
    { E n = mkExtract(x, 0, top); if (n->op != EXTRACT || n->a != x) return mkZext(n, w); }
    return known(intern(ZEXT, w, 0, 0, x, nullptr, nullptr));
}
E mkSext(E x, unsigned w)
{
    if (w == x->w) return x;
    if (isC(x)) return mkC(w, (uint64_t)sext64(x->c, x->w));
    if (x->kz >> (x->w - 1) & 1) return mkZext(x, w);
    if (x->op == SEXT) return mkSext(x->a, w);
    return known(intern(SEXT, w, 0, 0, x, nullptr, nullptr));
}

// keep the bits of x selected by constant mask m, as a concatenation of slices
static E maskSlices(E x, uint64_t m)
{
    unsigned w = x->w;
    m &= maskw(w) & ~x->kz;
    E r = nullptr;
    unsigned i = 0;
    while (i < w) {
        unsigned bit = m >> i & 1, j = i;
        while (j < w && (m >> j & 1) == bit) j++;
        E s = bit ? mkExtract(x, i, j - i) : mkC(j - i, 0);
        r = r ? mkConcat(s, r) : s;
        i = j;
    }
    return r;
}

static E orDisjoint(E a, E b)
{ // every bit known zero in a or in b
    unsigned w = a->w;
    E r = nullptr;
    unsigned i = 0;
    while (i < w) {
        bool fromB = a->kz >> i & 1;
        unsigned j = i;
        while (j < w && ((a->kz >> j & 1) != 0) == fromB) j++;
        E s = mkExtract(fromB ? b : a, i, j - i);
        r = r ? mkConcat(s, r) : s;
        i = j;
    }
    return r;
}

static bool addConst(E e, E &x, uint64_t &c)
{ // e == x + c
    if (e->op == ADD && isC(e->b)) { x = e->a; c = e->b->c; return true; }
    x = e; c = 0; return false;
}

static E cmpBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkC(1, foldbin(op, w, a->c, b->c));
    switch (op) {
    case EQ: {
        if (a == b) return mkC(1, 1);
        if (isC(a)) std::swap(a, b);
        if ((a->kz & b->ko) | (a->ko & b->kz)) return mkC(1, 0);
        if (a->umax < b->umin || b->umax < a->umin) return mkC(1, 0);
        if (w == 1) {
            if (isC(b)) return b->c ? a : mkNot(a);
        }
        if (a->op == ITE && isC(b)) {
            if (isC(a->a) && isC(a->b)) {
                bool p = a->a->c == b->c, q = a->b->c == b->c;
                if (p && q) return mkC(1, 1);
                if (!p && !q) return mkC(1, 0);
                return p ? a->d : mkNot(a->d);
            }
            if (isC(a->a) || isC(a->b))
                return mkIte(a->d, cmpBin(EQ, a->a, b), cmpBin(EQ, a->b, b));
        }
        if (isC(b)) {
            if (a->op == ZEXT) return cmpBin(EQ, a->a, mkC(a->a->w, b->c));
            if (a->op == SEXT) {
                if ((uint64_t)sext64(b->c & maskw(a->a->w), a->a->w) != (uint64_t)sext64(b->c, w)) return mkC(1, 0);
                return cmpBin(EQ, a->a, mkC(a->a->w, b->c));
            }
            if (a->op == CONCAT)
                return mkBin(AND, cmpBin(EQ, a->a, mkC(a->a->w, b->c >> a->b->w)), cmpBin(EQ, a->b, mkC(a->b->w, b->c)));
            if (a->op == ADD && isC(a->b)) return cmpBin(EQ, a->a, mkC(w, b->c - a->b->c));
            if (a->op == XOR && isC(a->b)) return cmpBin(EQ, a->a, mkC(w, b->c ^ a->b->c));
        } else {
            if (a->op == ZEXT && b->op == ZEXT) {
                unsigned k = std::max(a->a->w, b->a->w);
                return cmpBin(EQ, mkZext(a->a, k), mkZext(b->a, k));
            }
            E x, y; uint64_t c, d;
            addConst(a, x, c); addConst(b, y, d);
            if (x == y) return mkC(1, (c & maskw(w)) == (d & maskw(w)));
            if (c && c == d) return cmpBin(EQ, x, y);
            if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w)
                return mkBin(AND, cmpBin(EQ, a->a, b->a), cmpBin(EQ, a->b, b->b));
            if (a->id > b->id) std::swap(a, b);
        }
        return raw(EQ, 1, a, b);
    }
    case ULT:
        if (a == b) return mkC(1, 0);
        if (a->umax < b->umin) return mkC(1, 1);
        if (a->umin >= b->umax) return mkC(1, 0);
        break;
    case ULE:
        if (a == b) return mkC(1, 1);
        if (a->umax <= b->umin) return mkC(1, 1);
        if (a->umin > b->umax) return mkC(1, 0);
        break;
    case SLT: case SLE: {
        if (a == b) return mkC(1, op == SLE);
        uint64_t sb = 1ULL << (w - 1);
        if ((a->kz & sb) && (b->kz & sb)) return cmpBin(op == SLT ? ULT : ULE, a, b);
        if ((a->ko & sb) && (b->ko & sb)) return cmpBin(op == SLT ? ULT : ULE, a, b);
        if ((a->ko & sb) && (b->kz & sb)) return mkC(1, 1);
        if ((a->kz & sb) && (b->ko & sb)) return mkC(1, 0);
        if (w == 1) break;
        // sign test of a sum/difference of small values is left to the solver
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return cmpBin(op, a->a, b->a);
        return raw(op, 1, a, b);
    }
    default: abort();
    }
    // ULT / ULE narrowing
    if (a->op == ZEXT && b->op == ZEXT) {
        unsigned k = std::max(a->a->w, b->a->w);
        if (k < w) return cmpBin(op, mkZext(a->a, k), mkZext(b->a, k));
    }
    if (a->op == ZEXT && isC(b) && b->c <= maskw(a->a->w)) return cmpBin(op, a->a, mkC(a->a->w, b->c));
    if (b->op == ZEXT && isC(a) && a->c <= maskw(b->a->w)) return cmpBin(op, mkC(b->a->w, a->c), b->a);
    if (op == ULT && isC(b) && b->c == 1) return cmpBin(EQ, a, mkC(w, 0));
    if (op == ULE && isC(b) && b->c == 0) return cmpBin(EQ, a, b);
    if (op == ULT && isC(a) && a->c == 0) return mkNot(cmpBin(EQ, b, a));
    if (op == ULE && isC(a) && a->c == 1) return mkNot(cmpBin(EQ, b, mkC(w, 0)));
    // ite(c,k1,k2) against constant
    if (a->op == ITE && isC(a->a) && isC(a->b) && isC(b)) return mkIte(a->d, cmpBin(op, a->a, b), cmpBin(op, a->b, b));
    if (b->op == ITE && isC(b->a) && isC(b->b) && isC(a)) return mkIte(b->d, cmpBin(op, a, b->a), cmpBin(op, a, b->b));
    return raw(op, 1, a, b);
}

E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
    if (op >= EQ && op <= SLE) return cmpBin(op, a, b);
    if (isC(a) && isC(b)) return mkC(w, foldbin(op, w, a->c, b->c));
    uint64_t m = maskw(w);
    switch (op) {
    case ADD: {
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return a;
            if (a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkC(w, a->b->c + b->c));
            if (a->op == SUB && isC(a->a)) return mkBin(SUB, mkC(w, a->a->c + b->c), a->b);
            if (a->op == ITE && isC(a->a) && isC(a->b)) return mkIte(a->d, mkC(w, a->a->c + b->c), mkC(w, a->b->c + b->c));
            return raw(ADD, w, a, b);
        }
        E x, y; uint64_t c, d;
        addConst(a, x, c); addConst(b, y, d);
        if (c || d) return mkBin(ADD, mkBin(ADD, x, y), mkC(w, c + d));
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        if (a->id > b->id) std::swap(a, b);
        return raw(ADD, w, a, b);
    }
    case SUB: {
        if (a == b) return mkC(w, 0);
        if (isC(b)) return mkBin(ADD, a, mkC(w, 0 - b->c));
        E x, y; uint64_t c, d;
        addConst(a, x, c); addConst(b, y, d);
        if (x == y) return mkC(w, c - d);
        if ((c || d) && !isC(x)) return mkBin(ADD, mkBin(SUB, x, y), mkC(w, c - d));
        if (a->op == ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        if (a->op == SUB && a->a == b) return mkBin(SUB, mkC(w, 0), a->b);
        return raw(SUB, w, a, b);
    }
    case MUL: {
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return mkBin(SHL, a, mkC(w, __builtin_ctzll(b->c)));
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(MUL, w, a, b);
    }
    case UDIV:
        if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(LSHR, a, mkC(w, __builtin_ctzll(b->c)));
        return raw(UDIV, w, a, b);
    case UREM:
        if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkC(w, b->c - 1));
        if (isC(b) && a->umax < b->c) return a;
        return raw(UREM, w, a, b);
    case SDIV: case SREM: {
        uint64_t sb = 1ULL << (w - 1);
        if ((a->kz & sb) && (b->kz & sb)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
        return raw(op, w, a, b);
    }
    case AND: {
        if (a == b) return a;
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return b;
            if ((b->c | a->kz) == m) return a;
            if (w > 1) return maskSlices(a, b->c);
        }
        if (w == 1) {
            if (isC(b)) return b->c ? a : b;
            if (mkNot(a) == b) return mkC(1, 0);
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(AND, w, a, b);
    }
    case OR: {
        if (a == b) return a;
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
            if ((b->c & ~a->ko) == 0) return a;
        }
        if (w == 1) {
            if (mkNot(a) == b) return mkC(1, 1);
        } else {
            if (((a->kz | b->kz) & m) == m) return orDisjoint(a, b);
            if (isC(b)) return orDisjoint(mkBin(AND, a, mkC(w, ~b->c)), b);
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(OR, w, a, b);
    }
    case XOR: {
        if (a == b) return mkC(w, 0);
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkC(w, a->b->c ^ b->c));
        }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return raw(XOR, w, a, b);
    }
    case SHL:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkC(w, 0);
            return mkConcat(mkExtract(a, 0, w - b->c), mkC(b->c, 0));
        }
        return raw(SHL, w, a, b);
    case LSHR:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkC(w, 0);
            return mkZext(mkExtract(a, b->c, w - b->c), w);
        }
        return raw(LSHR, w, a, b);
    case ASHR:
        if (a->kz >> (w - 1) & 1) return mkBin(LSHR, a, b);
        if (isC(b)) {
            if (b->c == 0) return a;
            unsigned s = b->c >= w ? w - 1 : b->c;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        return raw(ASHR, w, a, b);
    default: abort();
    }
}

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isC(c->b)) return mkIte(c->a, b, a); // not
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
        if (isC(a)) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (isC(b)) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (a->op == ITE && a->d == c) a = a->a;
    if (b->op == ITE && b->d == c) b = b->b;
    if (a == b) return a;
    if (b->op == ITE && b->a == a) return mkIte(mkBin(OR, c, b->d), a, b->b);
    return known(intern(ITE, a->w, 0, 0, a, b, c));
}

// ---------------------------------------------------------------- arrays
static std::vector<const AList *> abase;
const AList *mkABase()
{
    apool.push_back(AList{nullptr, nullptr, nullptr, g_arrays++, nextAl++, g_emptySup, nullptr});
    abase.push_back(&apool.back());
    return &apool.back();
}
const AList *mkAStore(const AList *p, E idx, E val)
{
    apool.push_back(AList{p, idx, val, p->arr, nextAl++, supUnion(p->sup, supUnion(idx->sup, val->sup)), nullptr});
    return &apool.back();
}
E mkARead(const AList *al, E idx)
{
    while (al->prev) {
        if (al->idx == idx) return al->val;
        E eq = mkBin(EQ, al->idx, idx);
        if (isC(eq)) { if (eq->c) return al->val; al = al->prev; continue; }
        break;
    }
    if (al->prev) {
        E eq = mkBin(EQ, al->idx, idx);
        return mkIte(eq, al->val, mkARead(al->prev, idx));
    }
    return intern(AREAD, 64, 0, 0, idx, nullptr, nullptr, al);
}

// ---------------------------------------------------------------- evaluation
static uint64_t epoch = 0;
static bool keepEpoch = false;
void evalKeepEpoch(bool k) { keepEpoch = k; if (k) ++epoch; }
static uint64_t ev(E e, const Model &m)
{
    if (e->op == CONST) return e->c;
    if (e->op == SYM) return m.get(e->c) & maskw(e->w);
    if (e->ep == epoch) return e->ev;
    uint64_t r;
    switch (e->op) {
    case ITE: r = ev(e->d, m) ? ev(e->a, m) : ev(e->b, m); break;
    case CONCAT: r = ev(e->a, m) << e->b->w | ev(e->b, m); break;
    case EXTRACT: r = ev(e->a, m) >> e->lo; break;
    case ZEXT: r = ev(e->a, m); break;
    case SEXT: r = (uint64_t)sext64(ev(e->a, m), e->a->w); break;
    case AREAD: { uint64_t i = ev(e->a, m); auto it = m.arr.find(arrKey(e->al->arr, i)); r = it == m.arr.end() ? 0 : it->second; break; }
    default: r = foldbin(e->op, e->a->w, ev(e->a, m), ev(e->b, m));
    }
    r &= maskw(e->w);
    e->ep = epoch; e->ev = r;
    return r;
}
uint64_t evalE(E e, const Model &m) { if (!keepEpoch) ++epoch; return ev(e, m); }

// ---------------------------------------------------------------- Z3
static std::vector<Z3_ast> symAst;
static Z3_sort bvs(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(g_z3, w); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, s[w])); } return s[w]; }
static Z3_ast ref(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; }
Z3_ast symZ3(uint32_t id)
{
    if (symAst.size() <= id) symAst.resize(g_syms.size(), nullptr);
    if (!symAst[id]) {
        char nm[32]; snprintf(nm, sizeof nm, "s%u", id);
        static Z3_sort bs = nullptr; if (!bs) { bs = Z3_mk_bool_sort(g_z3); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, bs)); }
        Z3_sort so = g_syms[id].w == 1 ? bs : bvs(g_syms[id].w);
        symAst[id] = ref(Z3_mk_const(g_z3, Z3_mk_string_symbol(g_z3, nm), so));
    }
    return symAst[id];
}
Z3_ast arrBaseZ3(uint32_t arr)
{
    const AList *al = abase[arr];
    if (!al->z) {
        char nm[32]; snprintf(nm, sizeof nm, "arr%u", arr);
        Z3_sort so = Z3_mk_array_sort(g_z3, bvs(64), bvs(64)); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, so));
        al->z = ref(Z3_mk_const(g_z3, Z3_mk_string_symbol(g_z3, nm), so));
    }
    return al->z;
}
// unreferenced results live only until the next call: every temporary is referenced
static Z3_ast bit1(bool v) { static Z3_ast k[2]; if (!k[v]) k[v] = ref(Z3_mk_unsigned_int64(g_z3, v, bvs(1))); return k[v]; }
static Z3_ast b2bv(Z3_ast b) { return ref(Z3_mk_ite(g_z3, b, bit1(true), bit1(false))); }
Z3_ast toZ3bv(E e) { Z3_ast a = toZ3(e); return e->w == 1 ? b2bv(a) : a; }
Z3_ast toZ3(E e)
{
    if (e->z) return e->z;
    Z3_context c = g_z3;
    Z3_ast r = nullptr;
    unsigned w = e->w;
    if (w == 1) { // Bool
        switch (e->op) {
        case CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
        case SYM: r = symZ3(e->c); break;
        case AND: { Z3_ast x[2] = {toZ3(e->a), toZ3(e->b)}; r = Z3_mk_and(c, 2, x); break; }
        case OR: { Z3_ast x[2] = {toZ3(e->a), toZ3(e->b)}; r = Z3_mk_or(c, 2, x); break; }
        case XOR: case ADD: case SUB: r = isC(e->b) && e->b->c ? Z3_mk_not(c, toZ3(e->a)) : Z3_mk_xor(c, toZ3(e->a), toZ3(e->b)); break;
        case EQ: r = Z3_mk_eq(c, toZ3(e->a), toZ3(e->b)); break;
        case ULT: r = Z3_mk_bvult(c, toZ3bv(e->a), toZ3bv(e->b)); break;
        case ULE: r = Z3_mk_bvule(c, toZ3bv(e->a), toZ3bv(e->b)); break;
        case SLT: r = Z3_mk_bvslt(c, toZ3bv(e->a), toZ3bv(e->b)); break;
        case SLE: r = Z3_mk_bvsle(c, toZ3bv(e->a), toZ3bv(e->b)); break;
        case ITE: r = Z3_mk_ite(c, toZ3(e->d), toZ3(e->a), toZ3(e->b)); break;
        case EXTRACT: r = Z3_mk_eq(c, ref(Z3_mk_extract(c, e->lo, e->lo, toZ3bv(e->a))), bit1(true)); break;
        default: fprintf(stderr, "toZ3: bool op %d\n", e->op); abort();
        }
    } else {
        Z3_ast a = e->a ? toZ3bv(e->a) : nullptr, b = e->b ? toZ3bv(e->b) : nullptr;
        switch (e->op) {
        case CONST: r = Z3_mk_unsigned_int64(c, e->c, bvs(w)); break;
        case SYM: r = symZ3(e->c); break;
        case ADD: r = Z3_mk_bvadd(c, a, b); break;
        case SUB: r = Z3_mk_bvsub(c, a, b); break;
        case MUL: r = Z3_mk_bvmul(c, a, b); break;
        case UDIV: r = Z3_mk_bvudiv(c, a, b); break;
        case SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
        case UREM: r = Z3_mk_bvurem(c, a, b); break;
        case SREM: r = Z3_mk_bvsrem(c, a, b); break;
        case AND: r = Z3_mk_bvand(c, a, b); break;
        case OR: r = Z3_mk_bvor(c, a, b); break;
        case XOR: r = Z3_mk_bvxor(c, a, b); break;
        case SHL: r = Z3_mk_bvshl(c, a, b); break;
        case LSHR: r = Z3_mk_bvlshr(c, a, b); break;
        case ASHR: r = Z3_mk_bvashr(c, a, b); break;
        case ITE: r = Z3_mk_ite(c, toZ3(e->d), a, b); break;
        case CONCAT: r = Z3_mk_concat(c, a, b); break;
        case EXTRACT: r = Z3_mk_extract(c, e->lo + w - 1, e->lo, a); break;
        case ZEXT: r = Z3_mk_zero_ext(c, w - e->a->w, a); break;
        case SEXT: r = Z3_mk_sign_ext(c, w - e->a->w, a); break;
        case AREAD: r = Z3_mk_select(c, arrBaseZ3(e->al->arr), a); break;
        default: fprintf(stderr, "toZ3: op %d\n", e->op); abort();
        }
    }
    e->z = ref(r);
    return r;
}

std::string showE(E e, int depth)
{
    static const char *nm[] = {"c", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "++", "extract", "zext", "sext", "aread"};
    char buf[64];
    if (e->op == CONST) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->c); return buf; }
    if (e->op == SYM) return g_syms[e->c].name;
    if (depth == 0) return "...";
    std::string s = "(";
    s += nm[e->op];
    if (e->op == EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", e->lo, e->w); s += buf; }
    if (e->op == ZEXT || e->op == SEXT) { snprintf(buf, sizeof buf, "%d", e->w); s += buf; }
    if (e->d) s += " " + showE(e->d, depth - 1);
    if (e->a) s += " " + showE(e->a, depth - 1);
    if (e->b) s += " " + showE(e->b, depth - 1);
    return s + ")";
}
