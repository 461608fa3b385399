#include "expr.h"
namespace vx {
ExprPool pool;
uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b, unsigned aw) {
    uint64_t m = maskw(w);
    switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b ? (a / b) & m : m;
    case K_URem: return b ? (a % b) & m : a;
    case K_SDiv: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case K_SRem: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
    case K_Shl: return b >= w ? 0 : (a << b) & m;
    case K_LShr: return b >= w ? 0 : a >> b;
    case K_AShr: { int64_t x = sxt(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
    case K_Eq: return a == b; case K_Ult: return a < b; case K_Slt: return sxt(a, aw) < sxt(b, aw);
    default: abort();
    }
}
static bool commut(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }
static bool iteConst(Expr* e) { return e->k == K_Ite && e->b->isc() && e->c->isc(); }
static bool iteSomeConst(Expr* e, int d = 0) { // ite tree with constant leaves, small
    if (e->k != K_Ite) return false;
    if (d > 12) return false;
    return (e->b->isc() || iteSomeConst(e->b, d + 1)) && (e->c->isc() || iteSomeConst(e->c, d + 1));
}
Expr* mk(Kind k, unsigned w, Expr* a, Expr* b) {
    if (a->isc() && b->isc()) return cst(foldBin(k, w, a->v, b->v, a->w), w);
    if (commut(k)) { if (a->isc() || (!b->isc() && a->id > b->id)) std::swap(a, b); }
    uint64_t m = maskw(a->w);
    if (b->isc()) {
        uint64_t c = b->v;
        switch (k) {
        case K_Add: if (!c) return a; if (a->k == K_Add && a->b->isc()) return mk(K_Add, w, a->a, cst(a->b->v + c, w)); break;
        case K_Sub: return mk(K_Add, w, a, cst(0 - c, w));
        case K_Mul: if (!c) return b; if (c == 1) return a; if (!(c & (c - 1))) return mk(K_Shl, w, a, cst(__builtin_ctzll(c), w)); break;
        case K_UDiv: if (c == 1) return a; if (c && !(c & (c - 1))) return mk(K_LShr, w, a, cst(__builtin_ctzll(c), w)); break;
        case K_URem: if (c == 1) return cst(0, w); if (c && !(c & (c - 1))) return mk(K_And, w, a, cst(c - 1, w)); break;
        case K_SDiv: if (c == 1) return a; break;
        case K_And: if (!c) return b; if (c == m) return a; if (a->k == K_And && a->b->isc()) return mk(K_And, w, a->a, cst(a->b->v & c, w)); break;
        case K_Or: if (!c) return a; if (c == m) return b; break;
        case K_Xor: if (!c) return a; if (a->k == K_Xor && a->b->isc()) return mk(K_Xor, w, a->a, cst(a->b->v ^ c, w)); break;
        case K_Shl: case K_LShr: if (!c) return a; if (c >= w) return cst(0, w);
            if (k == K_Shl && a->k == K_LShr && a->b->isc() && a->b->v == c) return mk(K_Sub, w, a->a, mk(K_And, w, a->a, cst((1ull << c) - 1, w))); // rounding down
            if (a->k == k && a->b->isc()) { uint64_t t = a->b->v + c; if (t >= w) return cst(0, w); return mk(k, w, a->a, cst(t, w)); }
            break;
        case K_AShr: if (!c) return a; break;
        case K_Eq:
            if (a->w == 1) return c ? a : mk(K_Xor, 1, a, cst(1, 1));
            if (a->k == K_Add && a->b->isc()) return mkEq(a->a, cst(c - a->b->v, a->w));
            if (a->k == K_Xor && a->b->isc()) return mkEq(a->a, cst(c ^ a->b->v, a->w));
            if (a->k == K_ZExt) { if (c & ~maskw(a->a->w)) return cst(0, 1); return mkEq(a->a, cst(c, a->a->w)); }
            if (a->k == K_SExt) { uint64_t t = c & maskw(a->a->w); if (((uint64_t)sxt(t, a->a->w) & m) != c) return cst(0, 1); return mkEq(a->a, cst(t, a->a->w)); }
            if (a->k == K_Sub && c == 0) return mkEq(a->a, a->b);
            if (a->k == K_Concat) return mkAnd1(mkEq(a->a, cst(c >> a->b->w, a->a->w)), mkEq(a->b, cst(c, a->b->w)));
            break;
        case K_Ult: if (!c) return cst(0, 1); if (c == 1) return mkEq(a, cst(0, a->w));
            if (a->k == K_ZExt) { if (c > maskw(a->a->w)) return cst(1, 1); return mk(K_Ult, 1, a->a, cst(c, a->a->w)); } break;
        case K_Slt: if (a->k == K_ZExt) { int64_t sc = sxt(c, a->w); if (sc <= 0) return cst(0, 1); if ((uint64_t)sc > maskw(a->a->w)) return cst(1, 1); return mk(K_Ult, 1, a->a, cst(sc, a->a->w)); }
            break;
        default: break;
        }
        if (iteConst(a) || iteSomeConst(a)) return mkIte(a->a, mk(k, w, a->b, b), mk(k, w, a->c, b));
    } else if (a->isc()) {
        uint64_t c = a->v;
        if (k == K_Sub && b->k == K_Sub && b->a->isc()) return mk(K_Add, w, b->b, cst(c - b->a->v, w));
        if (k == K_Ult) { if (c == m) return cst(0, 1);
            if (!c) return mkNot(mkEq(b, a));
            if (b->k == K_ZExt) { if (c >= maskw(b->a->w)) return cst(0, 1); return mk(K_Ult, 1, cst(c, b->a->w), b->a); } }
        if (k == K_Slt && b->k == K_ZExt) { int64_t sc = sxt(c, b->w); if (sc < 0) return cst(1, 1); if ((uint64_t)sc >= maskw(b->a->w)) return cst(0, 1); return mk(K_Ult, 1, cst(sc, b->a->w), b->a); }
        if (k == K_Shl || k == K_LShr || k == K_UDiv || k == K_URem) { if (!c) return a; }
        if (iteConst(b) || iteSomeConst(b)) return mkIte(b->a, mk(k, w, a, b->b), mk(k, w, a, b->c));
    }
    if (a == b) switch (k) {
        case K_Sub: case K_Xor: return cst(0, w);
        case K_And: case K_Or: return a;
        case K_Eq: return cst(1, 1);
        case K_Ult: case K_Slt: return cst(0, 1);
        default: break;
    }
    if (k == K_Eq) {
        if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K_Add && a->a == b && a->b->isc()) return cst(0, 1);
        if (b->k == K_Add && b->a == a && b->b->isc()) return cst(0, 1);
        if (a->k == K_Add && b->k == K_Add && a->b->isc() && b->b->isc() && a->b->v == b->b->v) return mkEq(a->a, b->a);
    }
    if (k == K_Ult && a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mk(K_Ult, 1, a->a, b->a);
    if (k == K_Slt && a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mk(K_Slt, 1, a->a, b->a);
    if (k == K_Slt && a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mk(K_Ult, 1, a->a, b->a);
    if (k == K_Sub && a->k == K_Add && a->b->isc()) {
        if (b->k == K_Add && b->b->isc()) return mk(K_Add, w, mk(K_Sub, w, a->a, b->a), cst(a->b->v - b->b->v, w));
        if (a->a == b) return a->b;
    }
    if (k == K_Sub && a->k == K_Sub) { Expr* d = mk(K_Sub, w, a->a, b); if (d->isc()) return mk(K_Sub, w, d, a->b); }
    if (k == K_Sub && b->k == K_Add && b->a == a && b->b->isc()) return cst(0 - b->b->v, w);
    if (w == 1 && a->w == 1) { // boolean x & !x etc.
        auto isNot = [](Expr* x, Expr* y) { return x->k == K_Xor && x->b->isc() && x->b->v == 1 && x->a == y; };
        if (isNot(a, b) || isNot(b, a)) { if (k == K_And) return cst(0, 1); if (k == K_Or || k == K_Xor) return cst(1, 1); if (k == K_Eq) return cst(0, 1); }
        if (k == K_Eq) return mkNot(mk(K_Xor, 1, a, b));
    }
    return pool.get(k, w, a, b, nullptr, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (c->isc()) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->isc() && b->isc()) return a->v ? c : mkNot(c);
        if (a->isc()) return a->v ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
        if (b->isc()) return b->v ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
    }
    if (c->k == K_Xor && c->b->isc()) return mkIte(c->a, b, a);
    if (a->k == K_Ite && a->a == c) a = a->b;
    if (b->k == K_Ite && b->a == c) b = b->c;
    if (a == b) return a;
    return pool.get(K_Ite, a->w, c, a, b, 0);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K_Const: return cst(a->v >> lo, w);
    case K_Extract: return mkExtract(a->a, lo + (unsigned)a->v, w);
    case K_Concat: {
        unsigned lw = a->b->w;
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case K_ZExt: {
        unsigned sw = a->a->w;
        if (lo + w <= sw) return mkExtract(a->a, lo, w);
        if (lo >= sw) return cst(0, w);
        return mkZExt(mkExtract(a->a, lo, sw - lo), w);
    }
    case K_SExt: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); break;
    case K_Ite: if (a->b->isc() || a->c->isc() || a->b->k == K_Concat || a->c->k == K_Concat) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case K_And: case K_Or: case K_Xor: if (a->b->isc()) return mk(a->k, w, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case K_Add: case K_Sub: case K_Mul: if (lo == 0) return mk(a->k, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
    }
    return pool.get(K_Extract, w, a, nullptr, nullptr, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isc() && lo->isc()) return cst(hi->v << lo->w | lo->v, w);
    if (hi->isc() && !hi->v) return mkZExt(lo, w);
    if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, (unsigned)lo->v, w);
    if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
        return mkConcat(mkExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
    if (hi->k == K_ZExt && lo->k != K_ZExt) { return mkZExt(mkConcat(hi->a, lo), w); }
    if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->k == K_Ite && lo->isc() && hi->b->isc()) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (lo->k == K_Ite && hi->isc() && lo->b->isc()) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    // canonicalise to right-nested: (a.b).c -> a.(b.c)
    if (hi->k == K_Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    return pool.get(K_Concat, w, hi, lo, nullptr, 0);
}
Expr* mkZExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isc()) return cst(a->v, w);
    if (a->k == K_ZExt) return mkZExt(a->a, w);
    if (iteSomeConst(a)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return pool.get(K_ZExt, w, a, nullptr, nullptr, 0);
}
Expr* mkSExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->isc()) return cst((uint64_t)sxt(a->v, a->w), w);
    if (a->k == K_SExt) return mkSExt(a->a, w);
    if (a->k == K_ZExt) return mkZExt(a->a, w);
    if (iteSomeConst(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return pool.get(K_SExt, w, a, nullptr, nullptr, 0);
}
static uint64_t stampCtr = 1;
void newEvalStamp() { ++stampCtr; }
static uint64_t ev(Expr* e, const Model& m) {
    switch (e->k) { case K_Const: return e->v; case K_Sym: return m.get(e->v) & maskw(e->w); default: break; }
    if (e->evalStamp == stampCtr) return e->evalVal;
    uint64_t r;
    switch (e->k) {
    case K_Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case K_Concat: r = ev(e->a, m) << e->b->w | ev(e->b, m); break;
    case K_Extract: r = ev(e->a, m) >> e->v & maskw(e->w); break;
    case K_ZExt: r = ev(e->a, m); break;
    case K_SExt: r = (uint64_t)sxt(ev(e->a, m), e->a->w) & maskw(e->w); break;
    default: { auto x = ev(e->a, m), y = ev(e->b, m); r = foldBin(e->k, e->w, x, y, e->a->w); }
    }
    e->evalStamp = stampCtr; e->evalVal = r; return r;
}
uint64_t evalExpr(Expr* e, const Model& m) { ++stampCtr; return ev(e, m); }
}
