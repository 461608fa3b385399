// C30: mutation operations; PART 1: mutate with operations, 2: mutate_to with construct operations, 3: gradual mutation, 4: the C operations
#include "lib.hpp"
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dnmx/mutate.h>
#define N 3
static int n_def[N], n_args[N], n_func[N], nlive; static uint32_t dflt[N]; static int fail_func = -1; static bool failed;
template <int I> struct mx {
    uint32_t v; uint32_t tag = 0x600d;
    mx() : v(dflt[I]) { ++n_def[I]; ++nlive; }
    mx(uint32_t a, uint32_t&& b, const uint32_t& c) : v(a + 3 * b + 5 * c) { ++n_args[I]; ++nlive; }
    mx(mx&& o) noexcept : v(o.v) { ++nlive; }
    ~mx() { vx_check(tag == 0x600d, "only constructed mixins are destroyed"); tag = 0; --nlive; }
};
struct A : mx<0> { using mx::mx; }; struct B : mx<1> { using mx::mx; }; struct C : mx<2> { using mx::mx; };
DYNAMIX_DECLARE_DOMAIN(dom_tag); DYNAMIX_DEFINE_DOMAIN(dom_tag, "d");
DYNAMIX_DECLARE_MIXIN(struct A); DYNAMIX_DECLARE_MIXIN(struct B); DYNAMIX_DECLARE_MIXIN(struct C);
DYNAMIX_DEFINE_MIXIN(dom_tag, A); DYNAMIX_DEFINE_MIXIN(dom_tag, B); DYNAMIX_DEFINE_MIXIN(dom_tag, C);
static domain& D() { return g::get_domain<dom_tag>(); }
static const mixin_info* inf[N]; static const char* nm[N] = {"A", "B", "C"};
static uint32_t& val(void* p) { return ((mx<0>*)p)->v; }
static uint32_t val(const void* p) { return ((const mx<0>*)p)->v; }
static int idx(const mixin_info* i) { for (int k = 0; k < N; ++k) if (inf[k] == i) return k; vx_check(false, "a mixin of the domain"); return 0; }
static uint32_t fval[8]; static int fcalls[8]; static int fmix[8]; // per operation: value it gives, how many times it ran, on what
static bool in(const list& l, const mixin_info* m) { for (auto* x : l) if (x == m) return true; return false; }
static void drop(list& l, const mixin_info* m) { for (size_t i = 0; i < l.size(); ++i) if (l[i] == m) { l.erase(l.begin() + i); return; } }
static void build(int op, const mixin_info& info, void* p) {
    int k = idx(&info); ++fcalls[op]; vx_check(fcalls[op] == 1, "an operation initialises once"); fmix[op] = k;
    if (fail_func == op) { failed = true; throw user_exc{1}; }
    switch (k) { case 0: new (p) A; break; case 1: new (p) B; break; default: new (p) C; } --n_def[k]; ++n_func[k]; val(p) = fval[op];
}
struct maker { int op; void operator()(init_new_args a) const { build(op, a.info, a.mixin_buf); } };
// the domain's rule, if any
static int rule_kind;
static dnmx_error_return_t apply_rule(dnmx_type_mutation_handle h, uintptr_t) {
    auto& m = *type_mutation::from_c_handle(h);
    if (rule_kind == 1) { if (m.has(*inf[0]) && !m.has(*inf[2])) m.add(*inf[2]); } else if (rule_kind == 2) m.remove(*inf[1]);
    return 0;
}
static mutation_rule_info the_rule;
static void by_rule(list& l) { if (rule_kind == 1 && in(l, inf[0]) && !in(l, inf[2])) l.push_back(inf[2]); if (rule_kind == 2) drop(l, inf[1]); }
struct state { list l; uint32_t v[N]; const void* at[N]; };
static void note(const object& o, state& s) { s.l.assign(o.get_type().mixins.begin(), o.get_type().mixins.end()); for (auto* m : s.l) { s.v[idx(m)] = val(o.get(*m)); s.at[idx(m)] = o.get(*m); } }
static void unchanged(const object& o, const state& s) {
    vx_check(same(o.get_type().mixins, s.l), "the object keeps its type"); for (auto* m : s.l) vx_check(val(o.get(*m)) == s.v[idx(m)] && o.get(*m) == s.at[idx(m)], "the object keeps its mixins"); }
static const int starts = 6;
static list start(uint32_t k) {
    switch (k) { case 0: return {}; case 1: return {inf[0]}; case 2: return {inf[1], inf[0]}; case 3: return {inf[2]}; case 4: return {inf[2], inf[1]}; default: return {inf[0], inf[1], inf[2]}; } }
// what came out: the object has type want; what is new was initialised by one of the operations giving for it, or by default
static void came_out(const object& o, const state& was, const list& want, const int* gives, const int* kind, int nops) {
    vx_check(same(o.get_type().mixins, want), "the object has the type which the operations and the rules give");
    vx_check((size_t)nlive == want.size(), "exactly the mixins of the object are alive");
    int runs = 0;
    for (int k = 0; k < N; ++k) {
        bool neu = in(want, inf[k]) && !in(was.l, inf[k]); int given = 0, ran = 0; bool good = false; uint32_t v = in(want, inf[k]) ? val(o.get(*inf[k])) : 0;
        for (int p = 0; p < nops; ++p) if (gives[p] == k) { ++given; bool r = kind[p] == 2 ? n_args[k] != 0 : fcalls[p] != 0; if (r) good |= v == fval[p]; if (kind[p] != 2 && fcalls[p]) { ++runs; vx_check(fmix[p] == k, "an operation initialises its own mixin"); } }
        ran = n_def[k] + n_args[k] + n_func[k];
        vx_check(ran == (neu ? 1 : 0), "what is new is initialised once, and nothing else is");
        if (neu && given) vx_check(n_def[k] == 0 && good, "a new mixin is initialised by the operation which gave a function or arguments for it");
        if (neu && !given) vx_check(n_def[k] == 1 && v == dflt[k], "another new mixin is initialised by default");
        if (in(want, inf[k]) && !neu) vx_check(v == was.v[k], "a mixin which stays keeps its state");
    }
    for (int p = 0; p < nops; ++p) if (fcalls[p]) --runs; vx_check(runs == 0, "no operation runs for a mixin which is not its own");
}
static void zero() { for (int i = 0; i < N; ++i) n_def[i] = n_args[i] = n_func[i] = 0; for (auto& f : fcalls) f = 0; }
// the effect of an operation on a list; T_none or what it throws
static thrown edit(list& l, int what, int k) { // k == N: a name which is not there
    switch (what) {
    case 0: if (k == N) return T_type; l.push_back(inf[k]); break; // a duplicate makes the request fail
    case 1: if (k != N) drop(l, inf[k]); break;
    default: if (k == N || !in(l, inf[k])) return T_type; drop(l, inf[k]); l.push_back(inf[k]); }
    return T_none;
}
static bool dup(const list& l) { for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) return true; return false; }
static uint32_t av[8][3];
static const char* name_of(int k) { return k == N ? "Z" : nm[k]; }
// calls f with the operation
template <class F> static void with(int op, int kind, int k, F f) {
    switch (kind) {
    case 0: f(maker{op}, std::integral_constant<int, 0>(), k); break; default: f(maker{op}, std::integral_constant<int, 1>(), k); }
}
enum { ADD, ADD_NAME, ADD_ARGS, ADD_FUNC, ADD_FUNC_NAME, REMOVE, REMOVE_NAME, BACK, BACK_NAME, KINDS };
static int what_of(int kind) { return kind <= ADD_FUNC_NAME ? 0 : kind <= REMOVE_NAME ? 1 : 2; }
template <int K> static auto make(int op, int k) {
    if constexpr (K == ADD) return k == 1 ? add<B>() : add(*inf[k]);
    else if constexpr (K == ADD_NAME) return add(std::string_view(name_of(k)));
    else if constexpr (K == ADD_ARGS) return add<A>(av[op][0], std::move(av[op][1]), av[op][2]);
    else if constexpr (K == ADD_FUNC) return add(*inf[k], maker{op});
    else if constexpr (K == ADD_FUNC_NAME) return add(std::string_view(name_of(k)), maker{op});
    else if constexpr (K == REMOVE) return k == 1 ? remove<B>() : remove(*inf[k]);
    else if constexpr (K == REMOVE_NAME) return remove(std::string_view(name_of(k)));
    else if constexpr (K == BACK) return k == 1 ? to_back<B>() : to_back(*inf[k]);
    else return to_back(std::string_view(name_of(k)));
}
static bool by_name(int kind) { return kind == ADD_NAME || kind == ADD_FUNC_NAME || kind == REMOVE_NAME || kind == BACK_NAME; }
static uint32_t pick_mixin(int kind) { return kind == ADD_ARGS ? 0 : vx_choose(by_name(kind) ? N + 1 : N, "mixin"); }
static void begin() {
    inf[0] = &g::get_mixin_info<A>(); inf[1] = &g::get_mixin_info<B>(); inf[2] = &g::get_mixin_info<C>();
    for (int k = 0; k < N; ++k) { vx_check(inf[k]->dom == D().to_c_hanlde(), "defined mixins are registered"); dflt[k] = vx_u32("default"); }
    rule_kind = (int)vx_pick(3, "rule"); if (rule_kind) { the_rule = rule("r", apply_rule); D().add_mutation_rule(the_rule); }
    for (int i = 0; i < 3; ++i) { for (auto& a : av[i]) a = vx_u32("argument"); }
}
static void values(int op, int kind) { fval[op] = kind == ADD_ARGS ? av[op][0] + 3 * av[op][1] + 5 * av[op][2] : vx_u32("given"); }
static int kinds[3], mixs[3], gives[3], gkind[3];
template <class Call> static void judge(object& o, int nops, bool to, const list& target, Call call) {
    state was; note(o, was); for (auto* m : was.l) { was.v[idx(m)] = val(const_cast<void*>(o.get(*m))) = vx_u32("state"); } zero();
    list want = was.l; thrown expect = T_none;
    if (to) want = target;
    else { for (int p = 0; p < nops && expect == T_none; ++p) expect = edit(want, what_of(kinds[p]), mixs[p]); if (expect == T_none && dup(want)) expect = T_type; if (expect == T_none) by_rule(want); }
    for (int p = 0; p < nops; ++p) { gives[p] = kinds[p] >= ADD_ARGS && kinds[p] <= ADD_FUNC_NAME ? mixs[p] : -1; gkind[p] = kinds[p] == ADD_ARGS ? 2 : 3; }
    fail_func = to && vx_flag("function fails") ? (int)vx_pick(nops, "which") : -1; failed = false;
    thrown t = tries([&] { call(o); });
    if (failed) { vx_check(t == T_user, "an exception of a function comes out"); unchanged(o, was); vx_check((size_t)nlive == was.l.size(), "nothing is left of a failed mutation"); vx_reach("function failed"); }
    else if (expect != T_none) { vx_check(t == expect, "operations which cannot be done are an error"); unchanged(o, was); for (int k = 0; k < N; ++k) vx_check(n_def[k] + n_args[k] + n_func[k] == 0, "nothing is initialised then"); vx_reach("cannot"); }
    else { vx_check(t == T_none, "operations which can be done are done"); came_out(o, was, want, gives, gkind, nops); vx_reach("done"); }
}
#if PART == 1
template <int K1, int K2> static void pair(object& o) { judge(o, 2, false, {}, [](object& x) { mutate(x, make<K1>(0, mixs[0]), make<K2>(1, mixs[1])); }); }
template <int K1> static void second(object& o) {
    switch (kinds[1]) {
    case 0: return pair<K1, 0>(o); case 1: return pair<K1, 1>(o); case 2: return pair<K1, 2>(o); case 3: return pair<K1, 3>(o); case 4: return pair<K1, 4>(o);
    case 5: return pair<K1, 5>(o); case 6: return pair<K1, 6>(o); case 7: return pair<K1, 7>(o); default: return pair<K1, 8>(o); } }
static void first(object& o) {
    switch (kinds[0]) {
    case 0: return second<0>(o); case 1: return second<1>(o); case 2: return second<2>(o); case 3: return second<3>(o); case 4: return second<4>(o);
    case 5: return second<5>(o); case 6: return second<6>(o); case 7: return second<7>(o); default: return second<8>(o); } }
static void run() {
    object o(D().get_type(start(vx_pick(starts, "start"))));
    if (vx_flag("three")) { // three operations of a few kinds
        static const int seqs[][3] = {{ADD_FUNC, REMOVE_NAME, ADD_FUNC}, {ADD_FUNC, ADD_FUNC, ADD_FUNC}, {REMOVE, ADD_FUNC, BACK}, {ADD_FUNC_NAME, BACK_NAME, ADD_ARGS}};
        uint32_t s = vx_pick(4, "sequence"); for (int i = 0; i < 3; ++i) { kinds[i] = seqs[s][i]; mixs[i] = pick_mixin(kinds[i]); values(i, kinds[i]); }
        judge(o, 3, false, {}, [&](object& x) {
            switch (s) {
            case 0: mutate(x, make<ADD_FUNC>(0, mixs[0]), make<REMOVE_NAME>(1, mixs[1]), make<ADD_FUNC>(2, mixs[2])); break;
            case 1: mutate(x, make<ADD_FUNC>(0, mixs[0]), make<ADD_FUNC>(1, mixs[1]), make<ADD_FUNC>(2, mixs[2])); break;
            case 2: mutate(x, make<REMOVE>(0, mixs[0]), make<ADD_FUNC>(1, mixs[1]), make<BACK>(2, mixs[2])); break;
            default: mutate(x, make<ADD_FUNC_NAME>(0, mixs[0]), make<BACK_NAME>(1, mixs[1]), make<ADD_ARGS>(2, mixs[2])); } });
    } else { for (int i = 0; i < 2; ++i) { kinds[i] = (int)vx_pick(KINDS, "operation"); mixs[i] = (int)pick_mixin(kinds[i]); values(i, kinds[i]); } first(o); }
}
#elif PART == 2
static void run() { // construct operations: by info, by name, with arguments
    object o(D().get_type(start(vx_pick(starts, "start")))); rule_kind = 0;
    const list tgt[] = {{inf[1], inf[0], inf[2]}, {inf[2], inf[0]}, {inf[1]}, {}}; const list& l = tgt[vx_pick(4, "target")]; const type& t = D().get_type(l); list target(t.mixins.begin(), t.mixins.end());
    uint32_t form = vx_pick(6, "form"); static const int nops_of[] = {1, 2, 2, 3, 2, 0}; int nops = nops_of[form];
    static const int kk[][3] = {{ADD_ARGS}, {ADD_FUNC, ADD_FUNC_NAME}, {ADD_FUNC_NAME, ADD_ARGS}, {ADD_FUNC, ADD_FUNC, ADD_FUNC_NAME}, {ADD_ARGS, ADD_FUNC}, {}};
    for (int i = 0; i < nops; ++i) { kinds[i] = kk[form][i]; mixs[i] = (int)pick_mixin(kinds[i]); values(i, kinds[i]); }
    auto info = [](int i) { return construct(*inf[mixs[i]], maker{i}); }; auto name = [](int i) { return construct(std::string_view(name_of(mixs[i])), maker{i}); };
    auto args = [](int i) { return construct<A>(av[i][0], std::move(av[i][1]), av[i][2]); };
    judge(o, nops, nops != 0, target, [&](object& x) {
        switch (form) {
        case 0: mutate_to(x, t, args(0)); break; case 1: mutate_to(x, t, info(0), name(1)); break; case 2: mutate_to(x, t, name(0), args(1)); break;
        case 3: mutate_to(x, t, info(0), info(1), name(2)); break; case 4: mutate_to(x, t, args(0), info(1)); break; default: mutate_to(x, x.get_type()); } });
}
#elif PART == 3
static void run() { // gradual mutation
    object o(D().get_type(start(vx_pick(starts, "start")))); state was; note(o, was); for (auto* m : was.l) was.v[idx(m)] = val(const_cast<void*>(o.get(*m))) = vx_u32("state"); zero();
    list want = was.l; thrown expect = T_none; uint32_t how = vx_pick(4, "how"); int nops = how == 0 && VX_TIER == 2 ? 3 : 2; bool boom = false; // destruction, apply, cancel, exception
    uint32_t k[3], op[3]; for (int i = 0; i < nops; ++i) { op[i] = vx_pick(12, "operation"); k[i] = op[i] % 3 == 0 ? (uint32_t)(i & 1) : vx_choose(op[i] % 3 == 2 && i == nops - 1 ? N + 1 : N, "mixin"); }
    int done = 0;
    thrown t = tries([&] {
        auto mut = mutate(o);
        for (int i = 0; i < nops; ++i) { std::string_view n = name_of((int)k[i]); const mixin_info* m = k[i] == N ? nullptr : inf[k[i]];
            switch (op[i]) { case 0: if (k[i]) mut.add<B>(); else mut.add<A>(); break; case 1: mut.add(*m); break; case 2: mut.add(n); break;
            case 3: if (k[i]) mut.add_if_lacking<B>(); else mut.add_if_lacking<A>(); break; case 4: mut.add_if_lacking(*m); break; case 5: mut.add_if_lacking(n); break;
            case 6: if (k[i]) mut.remove<B>(); else mut.remove<A>(); break; case 7: mut.remove(*m); break; case 8: mut.remove(n); break;
            case 9: if (k[i]) mut.to_back<B>(); else mut.to_back<A>(); break; case 10: mut.to_back(*m); break; default: mut.to_back(n); }
            ++done; }
        if (how == 1) mut.apply(); if (how == 2) mut.cancel(); if (how == 3) { boom = true; throw user_exc{2}; }
    });
    for (int i = 0; i < nops && expect == T_none; ++i) { uint32_t w = op[i] / 3; if (w == 1) { if (k[i] < N && in(want, inf[k[i]])) continue; w = 0; } else if (w) --w; expect = edit(want, (int)w, (int)k[i]); }
    if (expect == T_none && how < 2 && dup(want)) expect = T_type;
    if (expect == T_none && how == 3) expect = T_user;
    vx_check(t == expect, "a gradual mutation fails exactly if it cannot be done");
    if (expect != T_none || how == 2) { unchanged(o, was); vx_check((size_t)nlive == was.l.size(), "nothing is constructed"); if (how == 2) vx_reach("cancelled"); else vx_reach("cannot"); }
    else { by_rule(want); came_out(o, was, want, nullptr, nullptr, 0); vx_reach("done"); }
}
#else
static int nupd; static uint32_t uval[8]; static dnmx_error_return_t errs[8]; static const type* c_target; static const type* c_source;
static void seen(dnmx_mutate_func_args a) { vx_check(a.info && a.mixin_buf && type::from_c_handle(a.target_type)->mixins[a.target_index] == a.info, "an override is told the mixin and where it is"); }
static dnmx_error_return_t c_init(dnmx_mutate_func_args a) { seen(a); vx_check(!a.source_type, "no source type for a new mixin"); int op = (int)a.user_data; if (errs[op]) { failed = true; ++fcalls[op]; return errs[op]; } build(op, *a.info, a.mixin_buf); return 0; }
static dnmx_error_return_t c_upd(dnmx_mutate_func_args a) { seen(a); vx_check(a.source_type && type::from_c_handle(a.source_type)->mixins[a.source_index] == a.info, "an override is told where the mixin was"); if (errs[a.user_data]) { failed = true; return errs[a.user_data]; } ++nupd; val(a.mixin_buf) = uval[a.user_data]; return 0; }
static void run() {
    object o(D().get_type(start(vx_pick(starts, "start")))); state was; note(o, was); for (auto* m : was.l) was.v[idx(m)] = val(const_cast<void*>(o.get(*m))) = vx_u32("state"); zero();
    list want; thrown expect = T_none; failed = false; dnmx_error_return_t r;
    if (vx_flag("mutate to")) {
        rule_kind = 0; const list tgt[] = {{inf[1], inf[0], inf[2]}, {inf[2], inf[0]}, {inf[1]}, {}}; const type& t = D().get_type(tgt[vx_pick(4, "target")]); want.assign(t.mixins.begin(), t.mixins.end());
        dnmx_mutate_to_override ov[2] = {}; int n = (int)vx_pick(3, "overrides"); int mi[2], in_[2], up[2];
        for (int i = 0; i < n; ++i) { bool nam = vx_flag("by name"); mi[i] = (int)vx_pick(nam ? N + 1 : N, "mixin"); in_[i] = (int)vx_pick(2, "init"); up[i] = (int)vx_pick(2, "update");
            if (nam) ov[i].mixin_name = dnmx_make_sv_str(name_of(mi[i])); else ov[i].mixin = inf[mi[i]]; if (in_[i]) ov[i].init_new = c_init; if (up[i]) ov[i].update_common = c_upd; ov[i].user_data = (uintptr_t)i;
            fval[i] = vx_u32("given"); uval[i] = vx_u32("update"); errs[i] = vx_flag("fails") ? -4 : 0; if (i && mi[i] == mi[0]) vx_assume(false); }
        r = dnmx_mutate_to(o.to_c_hanlde(), &t, ov, (uint32_t)n);
        if (failed) { vx_check(r != 0, "a failing override makes the mutation fail"); vx_check(same(o.get_type().mixins, was.l), "the object keeps its type"); vx_check((size_t)nlive == was.l.size(), "nothing is left of a failed mutation"); vx_reach("failed"); }
        else {
            vx_check(r == 0, "a mutation which can be done succeeds"); state ex = was;
            for (int i = 0; i < n; ++i) { gives[i] = in_[i] ? mi[i] : -1; gkind[i] = 3; if (up[i] && mi[i] < N && in(was.l, inf[mi[i]]) && in(want, inf[mi[i]])) { ex.v[mi[i]] = uval[i]; --nupd; } }
            vx_check(nupd == 0, "updates run once, for common mixins"); came_out(o, ex, want, gives, gkind, n); vx_reach("done"); }
    } else {
        want = was.l; dnmx_mutate_op ops[3] = {}; int n = (int)vx_pick(4, "operations"); bool one = n == 3 && VX_TIER == 1; int first = one ? (int)vx_pick(N, "mixin") : 0; // quick: three operations on the same mixin
        for (int i = 0; i < n; ++i) { bool nam = vx_flag("by name"); int w = (int)vx_pick(i == n - 1 && !one ? 4 : 3, "operation"), k = one ? first : (int)vx_choose(nam ? N + 1 : N, "mixin"); bool ovr = (w != 1 || !one) && vx_flag("override");
            ops[i].op_type = w == 0 ? dnmx_mutate_op_add : w == 1 ? dnmx_mutate_op_remove : w == 2 ? dnmx_mutate_op_to_back : 77; if (nam) ops[i].mixin_name = dnmx_make_sv_str(name_of(k)); else ops[i].mixin = inf[k];
            if (ovr) ops[i].init_override = c_init; ops[i].user_data = (uintptr_t)i; fval[i] = vx_u32("given"); errs[i] = ovr && w == 0 && i == n - 1 && !one && vx_flag("fails") ? 9 : 0; gives[i] = ovr && w == 0 ? k : -1; gkind[i] = 3;
            if (expect == T_none) expect = w == 3 ? T_other : edit(want, w, k); }
        if (expect == T_none && dup(want)) expect = T_type; if (expect == T_none) by_rule(want);
        r = dnmx_mutate(o.to_c_hanlde(), ops, (uint32_t)n);
        if (failed || expect != T_none) { vx_check(r != 0, "a mutation which cannot be done reports an error"); unchanged(o, was); vx_check((size_t)nlive == was.l.size(), "nothing is left of it"); vx_reach(failed ? "failed" : "cannot"); }
        else { vx_check(r == 0, "a mutation which can be done succeeds"); came_out(o, was, want, gives, gkind, n); vx_reach("done"); }
    }
}
#endif
extern "C" void vx_main() { begin(); run(); vx_check(nlive == 0, "every mixin is destroyed"); vx_reach("end"); }
