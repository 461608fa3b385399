// C36: the C interface mirrors the C++ one
#ifdef BYTWO
#undef BYTWO
#endif
#include "life.hpp"
#include <dynamix/type_class.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dnmx/domain.h>
#include <dnmx/object.h>
#include <dnmx/type.h>
#include <dnmx/type_mutation.h>
#include <dnmx/mutate.h>
#include <dnmx/mixin_allocator.h>
#ifndef STEPS
#define STEPS 2
#endif
static dnmx_type_handle H(const type& t) { return &t; }
// calls C: nothing may leave it
extern "C" { // of all_c.c
dnmx_ftable_entry c_ftable_at(const dnmx_basic_type* t, dnmx_feature_id id); const void* c_get_at(const dnmx_basic_object* o, dnmx_mixin_index_t i); void* c_get_mut_at(dnmx_basic_object* o, dnmx_mixin_index_t i);
bool c_copyable(dnmx_type_handle t); dnmx_feature_info c_feature_info(void); dnmx_sv c_domain_name(dnmx_domain_handle d); uintptr_t c_domain_data(dnmx_domain_handle d); void* c_domain_context(dnmx_domain_handle d);
}
template <class F> static auto c(F&& f) -> decltype(f()) {
    try { return f(); } catch (...) { vx_check(false, "no exception leaves a C function"); throw; }
}
// calls C++: whether it failed
template <class F> static bool cpp_fails(F&& f) { try { f(); return false; } catch (...) { return true; } }

#if PART == 1
// two domains with the same history, one driven by each interface
static int rule_mode; // of both sides: 0 add, 1 error, 2 throw what isn't an std::exception, 3 throw an std::exception
struct side {
    domain* d = nullptr; feature_info f[2]; mixin_info m[3], foreign; feature_info ff; type_class tc[2]; mutation_rule_info r[2]; feature_for_mixin ffm;
};
static side S[2]; static char names[8];
static bool tc_a(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == 1; }
static dnmx_error_return_t apply(dnmx_type_mutation_handle h, uintptr_t s) {
    auto& mut = *type_mutation::from_c_handle(h); auto& x = S[s];
    if (rule_mode == 1) return 4;
    if (rule_mode == 2) throw user_exc{1};
    if (rule_mode == 3) throw std::bad_alloc();
    for (auto* m : mut.mixins) if (m == &x.m[0]) return 0;
    mut.mixins.push_back(&x.m[0]); return 0;
}
static dnmx_sv nm(int i, uint32_t len = 1) { return dnmx_make_sv_len(names + i, len); }
static int index_of(const side& x, const mixin_info* p) { if (!p) return -1; for (int i = 0; i < 3; ++i) if (p == x.m + i) return i; return p == &x.foreign ? 3 : 9; }
static int index_of(const side& x, const feature_info* p) { if (!p) return -1; for (int i = 0; i < 2; ++i) if (p == x.f + i) return i; return p == &x.ff ? 3 : 9; }
static int index_of(const side& x, const type_class* p) { if (!p) return -1; for (int i = 0; i < 2; ++i) if (p == x.tc + i) return i; return 9; }
enum { O_feature, O_unfeature, O_mixin, O_unmixin, O_class, O_unclass, O_rule, O_unrule, O_list, O_mutation, O_collect, O_kinds };
static mixin_info& pick_mixin(side& x, uint32_t a) { return a < 3 ? x.m[a] : x.foreign; }
static feature_info& pick_feature(side& x, uint32_t a) { return a < 2 ? x.f[a] : x.ff; }
static void compare_types(const type* a, const type* b) {
    vx_check(!a == !b, "a C function fails exactly where the C++ one does"); if (!a) return;
    vx_check(a->num_mixins() == b->num_mixins(), "a C function gives the type the C++ one gives");
    for (uint32_t i = 0; i < a->num_mixins(); ++i) vx_check(index_of(S[0], a->mixins[i]) == index_of(S[1], b->mixins[i]), "a C function gives the type the C++ one gives");
}
static list L(side& x, uint32_t a) { // eight requested sequences
    switch (a) { case 0: return {}; case 1: return {x.m + 0}; case 2: return {x.m + 1}; case 3: return {x.m + 2, x.m + 1}; case 4: return {&x.foreign}; case 5: return {x.m + 1, x.m + 1}; default: return {x.m + 1, x.m + 0}; }
}
static void step() {
    uint32_t op = vx_pick(O_kinds, "op"); auto& p = S[0]; auto& q = S[1]; auto hd = q.d->to_c_hanlde();
    switch (op) {
    case O_feature: case O_unfeature: {
        uint32_t a = vx_pick(3, "feature");
        if (op == O_feature) { bool f = cpp_fails([&] { p.d->register_feature(pick_feature(p, a)); }); vx_check(f == (c([&] { return dnmx_register_feature(hd, &pick_feature(q, a)); }) != 0), "a C function fails exactly where the C++ one does"); if (f) vx_reach("feature fails"); }
        else {
            // infos in use by mixins stay registered, as the library asks
            vx_assume(a != 0 || p.m[0].id == invalid_mixin_id);
            cpp_fails([&] { p.d->unregister_feature(pick_feature(p, a)); }); c([&] { dnmx_unregister_feature(hd, &pick_feature(q, a)); }); }
        break; }
    case O_mixin: case O_unmixin: {
        uint32_t a = vx_pick(4, "mixin");
        if (op == O_mixin) { bool f = cpp_fails([&] { p.d->register_mixin(pick_mixin(p, a)); }); vx_check(f == (c([&] { return dnmx_register_mixin(hd, &pick_mixin(q, a)); }) != 0), "a C function fails exactly where the C++ one does"); if (f) vx_reach("mixin fails"); }
        else { if (cpp_fails([&] { p.d->unregister_mixin(pick_mixin(p, a)); })) vx_reach("foreign"); c([&] { dnmx_unregister_mixin(hd, &pick_mixin(q, a)); }); }
        break; }
    case O_class: case O_unclass: {
        uint32_t a = vx_pick(2, "class");
        if (op == O_class) { bool f = cpp_fails([&] { p.d->register_type_class(p.tc[a]); }); vx_check(f == (c([&] { return dnmx_register_type_class(hd, &q.tc[a]); }) != 0), "a C function fails exactly where the C++ one does"); if (f) vx_reach("class fails"); }
        else { cpp_fails([&] { p.d->unregister_type_class(p.tc[a]); }); c([&] { dnmx_unregister_type_class(hd, &q.tc[a]); }); }
        break; }
    case O_rule: case O_unrule: {
        uint32_t a = vx_pick(2, "rule");
        if (op == O_rule) { bool f = cpp_fails([&] { p.d->add_mutation_rule(p.r[a]); }); vx_check(f == (c([&] { return dnmx_add_mutation_rule(hd, &q.r[a]); }) != 0), "a C function fails exactly where the C++ one does"); if (f) vx_reach("rule fails"); }
        else { p.d->remove_mutation_rule(p.r[a]); c([&] { dnmx_remove_mutation_rule(hd, &q.r[a]); }); }
        break; }
    case O_list: {
        uint32_t a = vx_pick(7, "list"); rule_mode = (int)vx_pick(4, "rule does"); const type* t = nullptr; list lp = L(p, a), lq = L(q, a);
        if (cpp_fails([&] { t = &p.d->get_type(mspan(lp)); })) vx_reach("type fails");
        compare_types(t, type::from_c_handle(c([&] { return dnmx_get_type_from_infos(hd, lq.data(), (uint32_t)lq.size()); })));
        break; }
    case O_mutation: {
        uint32_t a = vx_pick(7, "list"); rule_mode = (int)vx_pick(4, "rule does"); const type* t = nullptr; list lp = L(p, a), lq = L(q, a);
        cpp_fails([&] { type_mutation mut(*p.d); mut.mixins.assign(lp.begin(), lp.end()); t = &p.d->get_type(std::move(mut)); });
        auto h = c([&] { return dnmx_create_type_mutation_empty(hd); }); vx_check(h && c([&] { return dnmx_type_mutation_get_domain(h); }) == hd, "a mutation is of its domain");
        vx_check(c([&] { return dnmx_type_mutation_set_mixins(h, lq.data(), (mixin_index_t)lq.size()); }), "the mixins of a mutation can be set");
        mixin_index_t n = 77; auto* ms = c([&] { return dnmx_type_mutation_get_mixins(h, &n); }); vx_check(n == lq.size(), "the mixins set are the ones got"); for (uint32_t i = 0; i < n; ++i) vx_check(ms[i] == lq[i], "the mixins set are the ones got");
        compare_types(t, type::from_c_handle(c([&] { return dnmx_get_type(hd, &h); })));
        vx_check(!h, "a request consumes its mutation");
        break; }
    case O_collect: p.d->garbage_collect_types(); c([&] { dnmx_garbage_collect_types(hd); }); break;
    }
}
static void same_state() {
    auto& p = S[0]; auto& q = S[1]; auto hd = q.d->to_c_hanlde();
    for (int i = 0; i < 3; ++i) vx_check(p.m[i].id == q.m[i].id && (p.m[i].dom == p.d->to_c_hanlde()) == (q.m[i].dom == q.d->to_c_hanlde()) && !p.m[i].dom == !q.m[i].dom, "mixins are registered as by C++");
    for (int i = 0; i < 2; ++i) vx_check(p.f[i].id == q.f[i].id, "features are registered as by C++");
    uint32_t id = vx_u32("looked up id"); 
    vx_check(index_of(p, p.d->get_mixin_info(mixin_id{id})) == index_of(q, c([&] { return dnmx_get_mixin_info_by_id(hd, dnmx_mixin_id{id}); })), "a lookup by id gives what C++ gives");
    vx_check(index_of(p, p.d->get_feature_info(feature_id{id})) == index_of(q, c([&] { return dnmx_get_feature_info_by_id(hd, dnmx_feature_id{id}); })), "a lookup by id gives what C++ gives");
    for (int i = 0; i < 7; ++i) {
        vx_check(index_of(p, p.d->get_mixin_info(nm(i).to_std())) == index_of(q, c([&] { return dnmx_get_mixin_info_by_name(hd, nm(i)); })), "a lookup by name gives what C++ gives");
        vx_check(index_of(p, p.d->get_feature_info(nm(i).to_std())) == index_of(q, c([&] { return dnmx_get_feature_info_by_name(hd, nm(i)); })), "a lookup by name gives what C++ gives");
        vx_check(index_of(p, p.d->get_type_class(nm(i).to_std())) == index_of(q, c([&] { return dnmx_get_type_class_by_name(hd, nm(i)); })), "a lookup by name gives what C++ gives");
    }
    vx_check(p.d->num_types() == c([&] { return dnmx_get_num_types(hd); }) && p.d->num_types() == q.d->num_types(), "as many types as by C++");
    vx_check(p.d->num_type_queries() == q.d->num_type_queries() && p.d->num_mutation_rules() == q.d->num_mutation_rules(), "as many rules and queries as by C++");
    vx_check(type::from_c_handle(c([&] { return dnmx_get_empty_type(hd); })) == &q.d->get_empty_type(), "the empty type is the domain's");
}
void vx_main() {
    for (int i = 0; i < 7; ++i) names[i] = char('p' + i);
    uint32_t odd = vx_pick(4, "odd");
    if (odd == 1) { names[1] = names[0]; names[4] = names[3]; names[6] = names[5]; } // the first two mixins, features and classes
    bool noname = odd == 2, nofunc = odd == 3;
    domain_settings set = {}; bool dm = vx_flag("duplicate names"); set.allow_duplicate_mixin_names = dm; set.allow_duplicate_feature_names = dm; set.canonicalize_types = vx_bool("canonicalize");
    uintptr_t ud = vx_u64("user data"), ud2 = vx_u64("user data"); void *ctx = (void*)vx_u64("context"), *ctx2 = (void*)vx_u64("context");
    domain other("other"); domain dp("dom", set, ud, ctx); S[0].d = &dp;
    auto hd = c([&] { return dnmx_create_domain(dnmx_make_sv_len("domain", 3), set, ud, ctx); });
    vx_check(hd, "a domain is created"); S[1].d = domain::from_c_handle(hd);
    vx_check(dnmx_sv_cmp(dnmx_get_domain_name(hd), dnmx_make_sv_lit("dom")) == 0 && dnmx_get_domain_user_data(hd) == ud && dnmx_get_domain_context(hd) == ctx, "a domain is created as asked");
    auto cs = dnmx_get_domain_settings(hd); vx_check(cs.allow_duplicate_mixin_names == set.allow_duplicate_mixin_names && cs.allow_duplicate_feature_names == set.allow_duplicate_feature_names && cs.canonicalize_types == set.canonicalize_types, "a domain is created as asked");
    dnmx_set_domain_user_data(hd, ud2); dnmx_set_domain_context(hd, ctx2);
    vx_check(S[1].d->user_data == ud2 && S[1].d->context == ctx2 && dnmx_get_domain_user_data(hd) == ud2 && dnmx_get_domain_context(hd) == ctx2, "the user's data is kept");
    vx_check(dnmx_sv_cmp(c_domain_name(hd), dnmx_make_sv_lit("dom")) == 0 && c_domain_data(hd) == ud2 && c_domain_context(hd) == ctx2, "a C program sees the same");
    auto cf = c_feature_info(); feature_info pf = dnmx_make_feature_info(); vx_check(cf.id.i == ~0u && !cf.name.begin && !cf.name.end && !cf.default_payload && !cf.allow_clashes == !pf.allow_clashes && !cf.feature_class, "a feature info made by C is unregistered and empty");
    for (int s = 0; s < 2; ++s) {
        auto& x = S[s];
        for (int i = 0; i < 3; ++i) { x.m[i] = plain("x"); x.m[i].name = i < 2 ? nm(i) : nm(2, noname ? 0 : 1); }
        x.foreign = plain("foreign"); x.ff = feat("foreign"); 
        for (int i = 0; i < 2; ++i) { x.f[i] = feat("x"); x.f[i].name = nm(3 + i, i && noname ? 0 : 1); x.tc[i].name = nm(5 + i, i && noname ? 0 : 1); x.tc[i].matches = i && nofunc ? nullptr : tc_a; x.r[i] = rule(i ? "s" : "r", i && nofunc ? nullptr : apply, i, (uintptr_t)s); }
        x.ffm = {}; x.ffm.info = &x.f[0]; x.m[0].set_features({&x.ffm, 1});
    }
    other.register_mixin(S[0].foreign); other.unregister_mixin(S[0].foreign); // in turn, so that both have the same id there
    domain other2("other"); other.register_mixin(S[0].foreign); other2.register_mixin(S[1].foreign); other.register_feature(S[0].ff); other2.register_feature(S[1].ff);
    if (vx_flag("start")) for (int i = 1; i < 3; ++i) { // some already there
        bool a = cpp_fails([&] { dp.register_mixin(S[0].m[i]); }), b = c([&] { return dnmx_register_mixin(hd, &S[1].m[i]); }) != 0; vx_check(a == b, "a C function fails exactly where the C++ one does");
    }
    for (int i = 0; i < STEPS; ++i) step();
    same_state();
    for (int s = 0; s < 2; ++s) vx_check(S[s].foreign.dom == (s ? other2 : other).to_c_hanlde() && S[s].foreign.registered() && S[s].ff.id != invalid_feature_id, "foreign infos are left alone");
    c([&] { dnmx_destroy_domain(hd); });
    vx_reach("end");
}
#elif PART == 2
// every query of types and objects
static int tcn; static bool tc_n(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == (uint32_t)tcn; }
void vx_main() {
    mixin_info m[4]; feature_info f[3]; feature_for_mixin ff[4][2]; uint32_t kinds[NM] = {K_small, K_aligned, K_triv};
    mixin_info tm[NM]; make(tm, kinds, nullptr); for (int i = 0; i < 3; ++i) m[i] = tm[i]; m[3] = plain("never");
    static char n[3][2]; static const char* base = "abc"; for (int i = 0; i < 3; ++i) { n[i][0] = base[i]; m[i].name = dnmx_make_sv_len(n[i], 1); }
    static int pl; f[0] = feat("f", true); f[1] = feat("g", true, &pl); f[2] = feat("h", true);
    for (int i = 0; i < 3; ++i) { ff[i][0] = {}; ff[i][0].info = &f[0]; ff[i][0].payload = &pl; ff[i][1] = {}; ff[i][1].info = &f[1]; ff[i][1].payload = &pl; }
    m[0].set_features({ff[0], 1}); m[1].set_features({ff[1], 2});
    uint32_t lacking = vx_pick(6, "lacking");
    auto& x = m[vx_pick(3, "of")];
    switch (lacking) { case 1: x.init = nullptr; break; case 2: x.copy_init = nullptr; break; case 3: x.copy_asgn = nullptr; break; case 4: x.equals = nullptr; break; case 5: x.compare = nullptr; break; }
    if (vx_flag("no equals")) x.equals = nullptr;
    domain d("d"); for (int i = 0; i < 3; ++i) d.register_mixin(m[i]); d.register_feature(f[2]);
    type_class tc; tc.name = dnmx_make_sv_str("t"); tc.matches = tc_n; tcn = (int)vx_pick(2, "class of"); d.register_type_class(tc);
    list l = pick_type(m, 3, 3, "type"); auto& t = d.get_type(mspan(l)); auto ht = H(t);
    char b[2]; vx_bytes(b, 2, "name"); dnmx_sv name = dnmx_make_sv_len(b, vx_pick(3, "name length")); auto ns = name.to_std();
    vx_check(c([&] { return dnmx_type_num_mixins(ht); }) == t.num_mixins() && c([&] { return dnmx_type_num_objects(ht); }) == t.num_objects(), "the counts are C++'s");
    auto queries = [&](const mixin_info& i) {
        vx_check(c([&] { return dnmx_type_has(ht, &i); }) == t.has(i), "has is C++'s");
        vx_check(c([&] { return dnmx_type_index_of(ht, &i); }) == t.index_of(i.id), "index_of is C++'s");
    };
    for (auto& i : m) queries(i);
    vx_check(c([&] { return dnmx_type_has_by_name(ht, name); }) == t.has(ns), "has by name is C++'s");
    vx_check(c([&] { return dnmx_type_index_of_name(ht, name); }) == t.index_of(ns), "index_of by name is C++'s");
    for (auto& i : f) {
        vx_check(c([&] { return dnmx_type_implements_strong(ht, &i); }) == t.implements_strong(i) && c([&] { return dnmx_type_implements(ht, &i); }) == t.implements(i), "implements is C++'s");
        vx_check(c([&] { return dnmx_type_implements_strong_by_name(ht, i.name); }) == t.implements_strong(i.name.to_std()), "implements by name is C++'s");
    }
    vx_check(c([&] { return dnmx_type_implements_strong_by_name(ht, name); }) == t.implements_strong(ns), "implements by name is C++'s");
    uint32_t id = vx_u32("feature id"); auto e = c([&] { return dnmx_ftable_at(ht, dnmx_feature_id{id}); }); auto e2 = t.ftable_at(feature_id{id});
    vx_check(e.begin == e2.begin && e.end == e2.end && e.top_bid_back == e2.top_bid_back, "the feature table is C++'s");
    auto ce = c_ftable_at(&t, dnmx_feature_id{id}); vx_check(ce.begin == e2.begin && ce.end == e2.end && ce.top_bid_back == e2.top_bid_back, "the feature table is C++'s");
    vx_check(c_copyable(ht) == (t.copy_constructible() && t.copy_assignable()) && t.copyable() == c_copyable(ht), "copyable is both kinds of copies");
    vx_check(c([&] { return dnmx_type_is_of(ht, &tc); }) == t.is_of(tc), "is_of is C++'s");
    bool is = false; cpp_fails([&] { is = t.is_of(ns); });
    vx_check(c([&] { return dnmx_type_is_of_name(ht, name); }) == is, "is_of by name is C++'s, false for an unknown class"); if (is) vx_reach("is of name");
    vx_check(c([&] { return dnmx_type_is_default_constructible(ht); }) == t.default_constructible() && c([&] { return dnmx_type_is_copy_constructible(ht); }) == t.copy_constructible() && c([&] { return dnmx_type_is_copy_assignable(ht); }) == t.copy_assignable()
        && c([&] { return dnmx_type_is_equality_comparable(ht); }) == t.equality_comparable() && c([&] { return dnmx_type_is_comparable(ht); }) == t.comparable(), "the traits are C++'s");
    if (t.default_constructible()) {
        object o(t), o2(t); auto ho = o.to_c_hanlde();
        vx_check(c([&] { return dnmx_object_get_domain(ho); }) == d.to_c_hanlde() && c([&] { return dnmx_object_get_type(ho); }) == ht && c([&] { return dnmx_object_num_mixins(ho); }) == t.num_mixins() && c([&] { return dnmx_object_is_empty(ho); }) == o.empty() && c([&] { return dnmx_object_is_sealed(ho); }) == o.sealed(), "an object's queries are C++'s");
        for (auto& i : m) {
            vx_check(c([&] { return dnmx_object_has(ho, &i); }) == o.has(i), "has is C++'s");
            vx_check(c([&] { return dnmx_object_get(ho, &i); }) == o.get(i) && c([&] { return dnmx_object_get_mut(ho, &i); }) == o.get(i), "get is C++'s");
        }
        vx_check(c([&] { return dnmx_object_has_by_name(ho, name); }) == o.has(ns) && c([&] { return dnmx_object_get_by_name(ho, name); }) == o.get(ns) && c([&] { return dnmx_object_get_mut_by_name(ho, name); }) == o.get(ns), "has and get by name are C++'s");
        uint32_t ix = vx_u32("index"); const void* want = nullptr; for (uint32_t i = 0; i < t.num_mixins(); ++i) if (ix == i) want = o.get(*t.mixins[i]);
        vx_check(c([&] { return dnmx_object_get_at(ho, ix); }) == want && c([&] { return dnmx_object_get_mut_at(ho, ix); }) == want, "get_at is C++'s");
        for (uint32_t i = 0; i < t.num_mixins(); ++i) vx_check(c_get_at((dnmx_basic_object*)ho, i) == o.get(*t.mixins[i]) && c_get_mut_at((dnmx_basic_object*)ho, i) == o.get(*t.mixins[i]), "a C program gets the same mixin");
        for (auto& i : f) vx_check(c([&] { return dnmx_object_implements_strong(ho, &i); }) == t.implements_strong(i) && c([&] { return dnmx_object_implements_strong_by_name(ho, i.name); }) == t.implements_strong(i.name.to_std()), "implements is C++'s");
        set_values(o, "state"); set_values(o2, "state");
        vx_check(c([&] { return dnmx_object_equals(ho, o2.to_c_hanlde()); }) == o.equals(o2), "equals is C++'s");
        int cmp = 0; bool f1 = cpp_fails([&] { cmp = o.compare(o2); }); auto r = c([&] { return dnmx_object_compare(ho, o2.to_c_hanlde()); });
        vx_check((r.error != 0) == f1 && (f1 || r.result == cmp), "compare is C++'s"); vx_reach(f1 ? "cannot compare" : "compared");
        vx_reach("object");
    }
    vx_reach("end");
}
#elif PART == 3
// the same operation on twin objects: by C++ on the first, by C on the second
static const mixin_info* ovr; static int ovr_kind; // 0 code, 1 exception
static dnmx_error_return_t f_ovr(dnmx_mutate_func_args a) { if (ovr_kind == 1) throw user_exc{2}; if (ovr_kind == 2) return 8; born(a.info, a.mixin_buf); val(a.mixin_buf) = 77; return 0; }
void vx_main() {
    uint32_t kinds[NM] = {K_small, K_ext, K_triv}; if (vx_flag("kinds")) { kinds[0] = K_aligned; kinds[2] = K_small; }
    mixin_info m[NM]; make(m, kinds, nullptr); static const char* N[] = {"a", "b", "c"};
    for (int i = 0; i < NM; ++i) dflt[i] = vx_u32("default");
    uint32_t lacks = vx_pick(4, "lacks"); switch (lacks) { case 1: m[1].init = nullptr; break; case 2: m[1].copy_init = nullptr; break; case 3: m[1].copy_asgn = nullptr; break; }
    domain d("d"); for (auto& i : m) d.register_mixin(i);
    list lt = pick_type(m, 2, 2, "object"), ls = pick_type(m, NM, 2, "other"); // what it is, and the other type or source
    auto& t = d.get_type(mspan(lt)); auto& s = d.get_type(mspan(ls));
    auto mk = [&](object& o, const type& ty) { object_mutation mut(o, ty); for (uint32_t i = 0; i < ty.num_mixins(); ++i) mut.update_at(i, [&](init_new_args a) { born(&a.info, a.mixin_buf); }, util::noop_udpate_common_func); };
    {
        object p(d), src(d), src2(d); auto* q = new object(d); mk(p, t); mk(*q, t); mk(src, s); mk(src2, s); dnmx_object_handle ho = q->to_c_hanlde();
        for (auto* i : lt) { uint32_t v = vx_u32("state"); val(p.get(*i)) = v; val(q->get(*i)) = v; }
        for (auto* i : ls) { uint32_t v = vx_u32("other state"); val(src.get(*i)) = v; val(src2.get(*i)) = v; }
        if (vx_flag("sealed")) { p.seal(); c([&] { dnmx_object_seal(ho); }); vx_check(q->sealed(), "an object is sealed"); }
        uint32_t op = vx_pick(10, "op"), at = vx_pick(4, "fails at"), kind = vx_pick(2, "fails by"); vx_assume(at < 3 || kind == 0);
        auto arm = [&] { fault_in = at < 3 ? (int)at : -1; fault_kind = (int)kind; faulted = false; };
        auto eq = [&](const object& x, const object& y, const char* what) {
            vx_check(&x.get_type() == &y.get_type() && x.sealed() == y.sealed(), what);
            for (auto* i : x.get_type().mixins) vx_check(val(x.get(*i)) == val(y.get(*i)), what);
        };
        const char* RES = "a C function has the effect of the C++ one"; bool failed = false; size_t l0 = (size_t)nlive, lp, blocks;
        object np(d); dnmx_object_handle nq = nullptr; bool created = false;
        dnmx_error_return_t err = 0; arm();
        switch (op) {
        case 0: created = true; failed = cpp_fails([&] { np = object(t); }); break;
        case 1: created = true; failed = cpp_fails([&] { np = p.copy(); }); break;
        case 2: created = true; failed = cpp_fails([&] { np = object(std::move(src)); }); break;
        case 3: failed = cpp_fails([&] { p.copy_from(src); }); break;
        case 4: failed = cpp_fails([&] { p.clear(); }); break;
        case 5: failed = cpp_fails([&] { p.reset_type(s); }); break;
        case 6: failed = cpp_fails([&] { p.clear(); }); break; // reset_type(null)
        case 7: created = true; np = object(d); break;
        case 8: failed = cpp_fails([&] { mutate(p, mutate_ops::add(m[2]), mutate_ops::remove(m[0])); }); break;
        case 9: ovr = m + 2; ovr_kind = (int)at; failed = cpp_fails([&] {
            object_mutation mut(p, s); for (uint32_t i = 0; i < s.num_mixins(); ++i) if (s.mixins[i] == ovr) mut.update_at(i, [&](init_new_args a) { fault_in = -1; if (ovr_kind == 1) throw user_exc{2}; if (ovr_kind == 2) throw user_exc{3}; born(&a.info, a.mixin_buf); val(a.mixin_buf) = 77; }, util::noop_udpate_common_func); }); break;
        }
        lp = (size_t)nlive - l0; arm(); l0 = (size_t)nlive; blocks = vx_live();
        switch (op) {
        case 0: nq = c([&] { return dnmx_create_object_default(H(t)); }); break;
        case 1: nq = c([&] { return dnmx_create_object_copy(ho); }); break;
        case 2: nq = c([&] { return dnmx_create_object_usurp(src2.to_c_hanlde()); }); break;
        case 3: err = c([&] { return dnmx_object_copy_from(ho, src2.to_c_hanlde()); }); break;
        case 4: { bool ok = c([&] { return dnmx_object_clear(ho); }); err = ok ? 0 : -1; break; }
        case 5: err = c([&] { return dnmx_object_reset_type(ho, H(s)); }); break;
        case 6: err = c([&] { return dnmx_object_reset_type(ho, nullptr); }); break;
        case 7: nq = c([&] { return dnmx_create_object_empty(d.to_c_hanlde()); }); break;
        case 8: { dnmx_mutate_op ops[2] = {}; ops[0].op_type = dnmx_mutate_op_add; ops[0].mixin = m + 2; ops[1].op_type = dnmx_mutate_op_remove; ops[1].mixin_name = dnmx_make_sv_str(N[0]);
            err = c([&] { return dnmx_mutate(ho, ops, 2); }); break; }
        case 9: { dnmx_mutate_to_override o = {}; o.mixin = ovr; o.init_new = [](dnmx_mutate_func_args a) -> dnmx_error_return_t { fault_in = -1; return f_ovr(a); };
            err = c([&] { return dnmx_mutate_to(ho, H(s), &o, 1); }); break; }
        }
        fault_in = -1;
        vx_check((created ? !nq : err != 0) == failed, "a C function fails exactly where the C++ one does"); vx_reach(failed ? "failed" : "done"); if (faulted && kind == 1 && failed) vx_reach("foreign exception");
        vx_check((size_t)nlive - l0 == lp, RES); eq(p, *q, RES); eq(src, src2, RES);
        if (failed) vx_check(vx_live() <= blocks, "a failed C function leaves no memory behind");
        if (nq) { eq(np, *object::from_c_handle(nq), RES); c([&] { dnmx_destroy_object(nq); }); }
        c([&] { dnmx_destroy_object(ho); });
    }
    vx_check(nlive == 0, "no mixin is left");
    vx_reach("end");
}
#elif PART == 4
// out of memory
alignas(16) static char mem[2][64]; static bool taken[2]; static int used_bufs; static bool refuse; static const dnmx_mixin_info* own;
static void* c_alloc(const dnmx_mixin_info* i) { vx_check(i == own, "the allocator is asked for its mixin"); if (refuse) return nullptr; vx_check(used_bufs < 2 && i->obj_buf_size <= 64, "harness: room"); ++used_bufs; int k = taken[0] ? 1 : 0; taken[k] = true; return mem[k]; }
static void c_dealloc(void* p, const dnmx_mixin_info* i) { int k = p == mem[1]; vx_check(i == own && (p == mem[0] || p == mem[1]) && taken[k], "the allocator gets its memory back"); taken[k] = false; --used_bufs; }
static dnmx_error_return_t init(const dnmx_mixin_info*, void* p) { val(p) = 5; return 0; }
static dnmx_error_return_t copy(const dnmx_mixin_info*, void* p, const void* s) { val(p) = val(s); return 0; }
static dnmx_error_return_t noop(dnmx_type_mutation_handle, uintptr_t) { return 0; }
void vx_main() {
    domain d("d"); mixin_info m[3]; feature_info f = feat("f"); type_class tc; tc.name = dnmx_make_sv_str("t"); tc.matches = [](dnmx_type_handle) noexcept { return true; };
    auto r = rule("r", noop);
    auto ha = c([&] { return dnmx_create_mixin_allocator(c_alloc, c_dealloc); }); own = m + 2;
    for (int i = 0; i < 3; ++i) { static const char* N[] = {"a", "b", "c"}; m[i] = dnmx_make_mixin_info(); m[i].name = dnmx_make_sv_str(N[i]); dnmx_set_mixin_info_size_and_alignment(&m[i], 4, 4); m[i].init = init; m[i].copy_init = copy; m[i].copy_asgn = copy; }
    m[2].allocator = ha;
    d.register_mixin(m[0]); d.register_mixin(m[2]);
    {
        list l1{m}, l2{m, m + 2}; auto& t = d.get_type(mspan(l1)); auto& t2 = d.get_type(mspan(l2)); object o(t), e(d), z(t2); auto mut = std::make_unique<type_mutation>(t);
        val(o.get(m[0])) = 1;
        uint32_t op = vx_pick(19, "op"), n = vx_pick(7, "fails at"); auto hd = d.to_c_hanlde();
        vx_check(!!ha, "an allocator is created");
        bool refused = vx_flag("allocator refuses"); refuse = refused; if (!refused) vx_alloc_fail_in((int)n);
        uint64_t blocks = vx_live(); bool ok = true; void* h = nullptr; int what = 0; // 1: object, 2: domain, 3: mutation, 4: allocator
        size_t nt = d.num_types(), nq = d.num_type_queries(); dnmx_type_mutation_handle hm = nullptr; bool made = true; const dnmx_mixin_info* two[] = {m + 2, m};
        switch (op) {
        case 0: h = (void*)c([&] { return dnmx_create_domain(dnmx_make_sv_str("x"), {}, 0, nullptr); }); what = 2; break;
        case 1: { domain_settings s = {}; s.canonicalize_types = true; h = (void*)c([&] { return dnmx_create_domain(dnmx_make_sv_str("x"), s, 0, nullptr); }); what = 2; break; }
        case 2: ok = c([&] { return dnmx_register_mixin(hd, m + 1); }) == 0; vx_check(ok == m[1].registered() && ok == (d.get_mixin_info("b") == m + 1), "a mixin which could not be registered isn't"); break;
        case 3: ok = c([&] { return dnmx_register_feature(hd, &f); }) == 0; vx_check(ok == (f.id != invalid_feature_id) && ok == (d.get_feature_info("f") == &f), "a feature which could not be registered isn't"); break;
        case 4: ok = c([&] { return dnmx_register_type_class(hd, &tc); }) == 0; vx_check(ok == (d.get_type_class("t") == &tc), "a class which could not be registered isn't"); break;
        case 5: ok = c([&] { return dnmx_add_mutation_rule(hd, &r); }) == 0; vx_check(d.num_mutation_rules() == (ok ? 1u : 0u), "a rule which could not be added isn't"); break;
        case 6: ok = !!c([&] { return dnmx_get_type_from_infos(hd, two, 2); }); break;
        case 7: hm = c([&] { return dnmx_create_type_mutation_from_type(H(t2)); }); ok = hm && c([&] { return dnmx_type_mutation_set_mixins(hm, two, 2); }) && c([&] { return dnmx_get_type(hd, &hm); }); if (hm) { c([&] { dnmx_destroy_unused_type_mutation(hm); }); } break;
        case 8: h = (void*)c([&] { return dnmx_create_object_empty(hd); }); what = 1; break;
        case 9: h = (void*)c([&] { return dnmx_create_object_default(H(t2)); }); what = 1; break;
        case 10: h = (void*)c([&] { return dnmx_create_object_copy(z.to_c_hanlde()); }); what = 1; break;
        case 11: h = (void*)c([&] { return dnmx_create_object_usurp(o.to_c_hanlde()); }); what = 1; break;
        case 12: ok = c([&] { return dnmx_object_copy_from(o.to_c_hanlde(), z.to_c_hanlde()); }) == 0; break;
        case 13: ok = c([&] { return dnmx_object_reset_type(o.to_c_hanlde(), H(t2)); }) == 0; break;
        case 14: { dnmx_mutate_op x = {}; x.op_type = dnmx_mutate_op_add; x.mixin = m + 2; ok = c([&] { return dnmx_mutate(o.to_c_hanlde(), &x, 1); }) == 0; break; }
        case 15: ok = c([&] { return dnmx_mutate_to(o.to_c_hanlde(), H(t2), nullptr, 0); }) == 0; break;
        case 16: h = (void*)c([&] { return dnmx_create_mixin_allocator(c_alloc, c_dealloc); }); what = 4; break;
        case 17: h = (void*)c([&] { return dnmx_create_type_mutation_empty(hd); }); what = 3; break;
        case 18: ok = c([&] { return dnmx_type_mutation_add(mut->to_c_hanlde(), m + 2); }); vx_check(mut->mixins.size() == (ok ? 2u : 1u) && mut->mixins[0] == m, "a mutation which could not be edited is as it was"); break;
        }
        vx_alloc_fail_in(-1); if (what) ok = !!h; vx_reach(ok ? "enough" : refused ? "refused" : "out of memory");
        if (what && !refused && n == 0) vx_check(!h, "what could not be created is null");
        if (!refused && n == 6) vx_check(ok || op == 7 || op == 6, "harness: six allocations are enough for all others");
        if (refused) { bool asks = op == 9 || op == 10 || op == 12 || op == 13 || op == 14 || op == 15; vx_check(ok == !asks, "an allocator which refuses fails exactly the operations which ask it"); }
        if (!ok) {
            if (what) vx_check(vx_live() == blocks, "a failed creation leaves nothing behind");
            vx_check(&o.get_type() == &t && val(o.get(m[0])) == 1 && e.empty() && &z.get_type() == &t2 && d.num_types() >= nt && d.num_type_queries() >= nq, "what failed changed nothing");
        }
        (void)made; refuse = false;
        switch (h ? what : 0) { case 1: c([&] { dnmx_destroy_object((dnmx_object_handle)h); }); break; case 2: c([&] { dnmx_destroy_domain((dnmx_domain_handle)h); }); break; case 3: c([&] { dnmx_destroy_unused_type_mutation((dnmx_type_mutation_handle)h); }); break; case 4: c([&] { dnmx_destroy_mixin_allocator((dnmx_mixin_allocator_handle)h); }); break; }
        if (what) vx_check(op == 11 || vx_live() == blocks, "what is destroyed leaves nothing behind");
    }
    vx_check(used_bufs == 0, "a mixin allocator gets everything back");
    d.unregister_mixin(m[0]); d.unregister_mixin(m[2]);
    c([&] { dnmx_destroy_mixin_allocator(ha); });
    vx_reach("end");
}
#endif
