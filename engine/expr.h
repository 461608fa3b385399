// Hash-consed bit-vector expressions (widths 1..64) with constant folding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <z3.h>

namespace vx {

enum Kind : uint8_t { K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor,
    K_Shl, K_LShr, K_AShr, K_Eq, K_Ult, K_Slt, K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt };

struct Mask { uint64_t m[4] = {0,0,0,0};
    bool meets(const Mask& o) const { return (m[0]&o.m[0])|(m[1]&o.m[1])|(m[2]&o.m[2])|(m[3]&o.m[3]); }
    void add(const Mask& o) { for (int i=0;i<4;++i) m[i]|=o.m[i]; }
    void set(unsigned i) { i &= 255; m[i>>6] |= 1ull<<(i&63); }
    bool has(unsigned i) const { i &= 255; return m[i>>6]>>(i&63)&1; }
    bool operator==(const Mask& o) const { return !memcmp(m,o.m,sizeof m); }
};

struct Expr {
    Kind k; uint8_t w; uint32_t id; uint64_t hash;
    Expr *a, *b, *c; uint64_t v;
    Mask mask;
    Expr* next;
    Z3_ast z; uint64_t evalStamp; uint64_t evalVal;
    bool isc() const { return k == K_Const; }
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct ExprPool {
    std::vector<Expr*> tab; size_t count = 0; uint32_t nextId = 1;
    char* chunk = nullptr; size_t chunkLeft = 0;
    ExprPool() { tab.resize(1u << 18, nullptr); }
    Expr* raw() {
        if (chunkLeft < sizeof(Expr)) { chunkLeft = sizeof(Expr) * 8192; chunk = (char*)malloc(chunkLeft); }
        auto* e = (Expr*)chunk; chunk += sizeof(Expr); chunkLeft -= sizeof(Expr); return e;
    }
    static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
    Expr* get(Kind k, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t v) {
        uint64_t h = mix(mix(mix(mix(mix(k * 131 + w, v), (uint64_t)a), (uint64_t)b), (uint64_t)c), 7);
        size_t i = h & (tab.size() - 1);
        for (Expr* e = tab[i]; e; e = e->next)
            if (e->hash == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
        Expr* e = raw(); memset((void*)e, 0, sizeof *e);
        e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v; e->hash = h; e->id = nextId++;
        if (a) e->mask.add(a->mask); if (b) e->mask.add(b->mask); if (c) e->mask.add(c->mask);
        if (k == K_Sym) e->mask.set((unsigned)v);
        e->next = tab[i]; tab[i] = e;
        if (++count > tab.size()) grow();
        return e;
    }
    void grow() {
        std::vector<Expr*> n(tab.size() * 4, nullptr);
        for (auto* h : tab) while (h) { auto* nx = h->next; size_t i = h->hash & (n.size() - 1); h->next = n[i]; n[i] = h; h = nx; }
        tab.swap(n);
    }
};
extern ExprPool pool;

static inline Expr* cst(uint64_t v, unsigned w) { return pool.get(K_Const, w, 0, 0, 0, v & maskw(w)); }
static inline Expr* sym(unsigned idx, unsigned w) { return pool.get(K_Sym, w, 0, 0, 0, idx); }

Expr* mk(Kind k, unsigned w, Expr* a, Expr* b);           // binary; for Eq/Ult/Slt w==1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
static inline Expr* mkNot(Expr* a) { return mk(K_Xor, 1, a, cst(1, 1)); }
static inline Expr* mkEq(Expr* a, Expr* b) { return mk(K_Eq, 1, a, b); }
static inline Expr* mkAnd1(Expr* a, Expr* b) { return mk(K_And, 1, a, b); }
static inline Expr* mkOr1(Expr* a, Expr* b) { return mk(K_Or, 1, a, b); }

uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b, unsigned aw);

// a model: value per symbol index
struct Model { std::vector<uint64_t> v; uint64_t get(size_t i) const { return i < v.size() ? v[i] : 0; } void set(size_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };
uint64_t evalExpr(Expr* e, const Model& m);
void newEvalStamp();
}
