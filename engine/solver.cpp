#include "solver.h"
#include <chrono>
#include <algorithm>
namespace vx {
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg); // non-rc context: asts live as long as the context
    Z3_set_error_handler(ctx, onErr);
    slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 1000);
    Z3_solver_set_params(ctx, slv, p);
    hard = nullptr;
}
// the second try: bit-blasting, for the few queries with much arithmetic
Z3_lbool Solver::checkHard(const std::vector<Expr*>& slice) {
    hard = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, hard);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, hard, p); Z3_params_dec_ref(ctx, p);
    for (auto* e : slice) Z3_solver_assert(ctx, hard, tr(e));
    return Z3_solver_check(ctx, hard);
}
// booleans (w==1) are translated to Bool sort, everything else to BitVec
Z3_ast Solver::bv(Expr* e) {
    if (e->w != 1) return tr(e);
    return Z3_mk_ite(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
}
Z3_ast Solver::tr(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r = nullptr;
    auto B2 = [&](Z3_ast(*f)(Z3_context, Z3_ast, Z3_ast)) { return f(ctx, tr(e->a), tr(e->b)); };
    switch (e->k) {
    case K_Const: r = e->w == 1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, e->w)); break;
    case K_Sym: {
        char nm[32]; snprintf(nm, sizeof nm, "s%u_%u", (unsigned)e->v, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
        break;
    }
    case K_And: if (e->w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = B2(Z3_mk_bvand); break;
    case K_Or: if (e->w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(ctx, 2, x); } else r = B2(Z3_mk_bvor); break;
    case K_Xor: if (e->w == 1) { if (e->b->isc()) r = e->b->v ? Z3_mk_not(ctx, tr(e->a)) : tr(e->a); else r = Z3_mk_xor(ctx, tr(e->a), tr(e->b)); } else r = B2(Z3_mk_bvxor); break;
    case K_Eq: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case K_Ult: if (e->a->w == 1) { Z3_ast x[2] = {Z3_mk_not(ctx, tr(e->a)), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = B2(Z3_mk_bvult); break;
    case K_Slt: if (e->a->w == 1) { Z3_ast x[2] = {tr(e->a), Z3_mk_not(ctx, tr(e->b))}; r = Z3_mk_and(ctx, 2, x); } else r = B2(Z3_mk_bvslt); break;
    case K_Ite: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case K_Concat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case K_Extract: { Z3_ast x = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, bv(e->a));
        r = e->w == 1 ? Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))) : x; break; }
    case K_ZExt: r = e->a->w == 1 ? Z3_mk_ite(ctx, tr(e->a), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)))
        : Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case K_SExt: r = e->a->w == 1 ? Z3_mk_ite(ctx, tr(e->a), Z3_mk_unsigned_int64(ctx, maskw(e->w), Z3_mk_bv_sort(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)))
        : Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    default: {
        Z3_ast x, y;
        if (e->w == 1) { // 1-bit arithmetic: via 1-bit vectors
            x = bv(e->a); y = bv(e->b);
        } else { x = tr(e->a); y = tr(e->b); }
        switch (e->k) {
        case K_Add: r = Z3_mk_bvadd(ctx, x, y); break; case K_Sub: r = Z3_mk_bvsub(ctx, x, y); break;
        case K_Mul: r = Z3_mk_bvmul(ctx, x, y); break; case K_UDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
        case K_SDiv: r = Z3_mk_bvsdiv(ctx, x, y); break; case K_URem: r = Z3_mk_bvurem(ctx, x, y); break;
        case K_SRem: r = Z3_mk_bvsrem(ctx, x, y); break; case K_Shl: r = Z3_mk_bvshl(ctx, x, y); break;
        case K_LShr: r = Z3_mk_bvlshr(ctx, x, y); break; case K_AShr: r = Z3_mk_bvashr(ctx, x, y); break;
        default: abort();
        }
        if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    }
    return e->z = r;
}
static void collectSyms(Expr* e, std::vector<Expr*>& out, std::vector<Expr*>& seen) {
    // iterative walk with a stamp in evalStamp would clash with evaluation; use a local visited set keyed by id
    static std::vector<uint32_t> mark; static uint32_t gen = 0;
    if (seen.empty()) ++gen;
    seen.push_back(e);
    std::vector<Expr*> st{e};
    while (!st.empty()) {
        Expr* x = st.back(); st.pop_back();
        if (x->id >= mark.size()) mark.resize(x->id * 2 + 64, 0);
        if (mark[x->id] == gen) continue;
        mark[x->id] = gen;
        if (x->k == K_Sym) out.push_back(x);
        if (x->a) st.push_back(x->a); if (x->b) st.push_back(x->b); if (x->c) st.push_back(x->c);
    }
}
int Solver::check(const std::vector<Expr*>& pc, Expr* cond, Model& model) {
    ++st.queries;
    if (cond->isc()) return cond->v ? 1 : 0;
    newEvalStamp();
    // independence slice
    std::vector<Expr*> slice; slice.push_back(cond);
    Mask m = cond->mask; std::vector<char> used(pc.size(), 0);
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!used[i] && pc[i]->mask.meets(m)) { used[i] = 1; slice.push_back(pc[i]); m.add(pc[i]->mask); ch = true; } }
    std::sort(slice.begin(), slice.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
    slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
    uint64_t h = 1469598103934665603ull; for (auto* e : slice) h = ExprPool::mix(h, e->id);
    auto f = cache.find(h);
    if (f != cache.end() && f->second == 0) { ++st.cacheHits; ++st.unsat; return 0; }
    auto t0 = std::chrono::steady_clock::now();
    ++st.z3calls;
    Z3_solver_push(ctx, slv);
    for (auto* e : slice) Z3_solver_assert(ctx, slv, tr(e));
    Z3_lbool r = Z3_solver_check(ctx, slv);
    Z3_solver from = slv;
    if (r == Z3_L_UNDEF) { r = checkHard(slice); from = hard; }
    int ret;
    if (r == Z3_L_TRUE) {
        ret = 1; ++st.sat;
        Z3_model zm = Z3_solver_get_model(ctx, from); Z3_model_inc_ref(ctx, zm);
        std::vector<Expr*> syms, seen; for (auto* e : slice) collectSyms(e, syms, seen);
        for (auto* s : syms) {
            Z3_ast v; uint64_t u = 0;
            if (Z3_model_eval(ctx, zm, tr(s), true, &v)) {
                if (s->w == 1) u = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                else if (!Z3_get_numeral_uint64(ctx, v, &u)) u = 0;
            }
            model.set(s->v, u);
        }
        Z3_model_dec_ref(ctx, zm);
        for (auto* e : slice) if (!evalExpr(e, model)) { fprintf(stderr, "vx: model does not satisfy constraint (encoding bug)\n"); abort(); }
    } else if (r == Z3_L_FALSE) { ret = 0; ++st.unsat; cache[h] = 0; }
    else { ret = -1; ++st.unknown; }
    Z3_solver_pop(ctx, slv, 1);
    if (hard) { Z3_solver_dec_ref(ctx, hard); hard = nullptr; }
    st.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return ret;
}
std::string Solver::smt(const std::vector<Expr*>& pc, Expr* cond) {
    Z3_solver_push(ctx, slv);
    for (auto* e : pc) Z3_solver_assert(ctx, slv, tr(e));
    if (cond) Z3_solver_assert(ctx, slv, tr(cond));
    std::string s = Z3_solver_to_string(ctx, slv);
    Z3_solver_pop(ctx, slv, 1);
    return s;
}
}
