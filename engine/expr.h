// Hash-consed bit-vector expressions with slice-normalising simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <z3.h>

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT, AREAD };

struct SupSet { std::vector<uint32_t> ids; };

struct Expr;
// functional update list of a word array (for blocks of symbolic size)
struct AList { const AList *prev; const Expr *idx, *val; uint32_t arr; uint32_t id; const SupSet *sup; mutable Z3_ast z; };

struct Expr {
    Op op; uint8_t w; uint8_t lo;
    uint8_t nd;                 // nesting of wide ITEs
    uint32_t id;
    uint64_t c;                 // CONST value, SYM id
    const Expr *a, *b, *d;
    const AList *al;
    uint64_t kz, ko;            // known zero / known one bits (within width)
    uint64_t umin, umax;
    const SupSet *sup;
    mutable Z3_ast z;           // cached translation (Bool for w==1, BV otherwise)
    mutable uint64_t ep, ev;    // evaluation memo
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (w - 1);
    return (int64_t)(((v & maskw(w)) ^ m) - m);
}

struct SymInfo { std::string name; uint8_t w; bool input; };
extern std::vector<SymInfo> g_syms;      // by symbol id

// result undefined (*ok=false) for division by zero
uint64_t foldbin(Op op, unsigned w, uint64_t a, uint64_t b);

E mkC(unsigned w, uint64_t v);
E mkSym(unsigned w, const std::string &name, bool input);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZext(E x, unsigned w);
E mkSext(E x, unsigned w);
E mkNot(E x);             // width 1
E mkARead(const AList *al, E idx);
const AList *mkABase();
const AList *mkAStore(const AList *p, E idx, E val);
static inline bool isC(E e) { return e->op == CONST; }

struct Model {
    std::vector<uint64_t> v;
    std::unordered_map<uint64_t, uint64_t> arr; // arrKey(array id, index) -> word
    uint64_t get(uint64_t s) const { return s < v.size() ? v[s] : 0; }
};
static inline uint64_t arrKey(uint32_t a, uint64_t i) { return ((uint64_t)a << 58) ^ i; }
uint64_t evalE(E e, const Model &m);     // fresh memo epoch per call
void evalKeepEpoch(bool keep);           // true: reuse memo between calls (same model)
extern Z3_context g_z3;
Z3_ast toZ3(E e);
Z3_ast symZ3(uint32_t id);
Z3_ast toZ3bv(E e);
std::string showE(E e, int depth = 5);
const SupSet *supUnion(const SupSet *a, const SupSet *b);
extern const SupSet *g_emptySup;
void initExpr();
uint64_t exprCount();
Z3_ast arrBaseZ3(uint32_t arr);
extern uint32_t g_arrays;
