// C24: type mutations are edits of a list
#include "lib.hpp"
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dnmx/type_mutation.h>
#define N 3
#if PART == 2
struct A {}; struct B {}; struct C {};
DYNAMIX_DECLARE_DOMAIN(dom_tag); DYNAMIX_DEFINE_DOMAIN(dom_tag, "d");
DYNAMIX_DECLARE_MIXIN(struct A); DYNAMIX_DECLARE_MIXIN(struct B); DYNAMIX_DECLARE_MIXIN(struct C);
DYNAMIX_DEFINE_MIXIN(dom_tag, A); DYNAMIX_DEFINE_MIXIN(dom_tag, B); DYNAMIX_DEFINE_MIXIN(dom_tag, C);
#endif
static bool in(const list& l, const mixin_info* m) { for (auto* x : l) if (x == m) return true; return false; }
static bool drop(list& l, const mixin_info* m) { for (size_t i = 0; i < l.size(); ++i) if (l[i] == m) { l.erase(l.begin() + i); return true; } return false; }
static void keep_last(list& l) { list r; for (size_t i = 0; i < l.size(); ++i) { bool later = false; for (size_t j = i + 1; j < l.size(); ++j) later |= l[j] == l[i]; if (!later) r.push_back(l[i]); } l = r; }
static bool same_list(const type_mutation& t, const list& l) { if (t.mixins.size() != l.size()) return false; bool r = true; for (size_t i = 0; i < l.size(); ++i) r &= t.mixins[i] == l[i]; return r; }
extern "C" void vx_main() {
#if PART == 1
    char nm[N][2]; mixin_info m[N]; feature_info f[3] = {feat("f"), feat("g", false, &f[1]), feat("h")}; feature_for_mixin ff[3] = {{&f[0], nullptr, 0, 0}, {&f[0], nullptr, 1, 0}, {&f[1], nullptr, 0, 0}};
    for (int i = 0; i < N; ++i) { nm[i][0] = "mxb"[i]; m[i] = plain("x"); m[i].name = dnmx_make_sv_len(nm[i], 1); }
    m[1].features = ff; m[1].num_features = 1; m[2].features = ff + 1; m[2].num_features = 2;
    domain dom("d"); dom.register_feature(f[2]); for (auto& x : m) dom.register_mixin(x);
    char q[2]; vx_bytes(q, 1, "query"); std::string_view name(q, vx_flag("empty") ? 0 : 1); dnmx_sv cname = dnmx_make_sv_len(name.data(), name.size()); const mixin_info *named = nullptr, *reg = nullptr; // the mixin with the name, and whether the domain has it
    if (name.size()) for (auto& x : m) if (x.name.begin[0] == q[0]) named = &x;
    reg = named;
    bool edit = vx_flag("edit"); uint32_t from = vx_pick(4, "from"); list l; { uint32_t n = vx_pick(4, "length"); for (uint32_t i = 0; i < n; ++i) l.push_back(m + (from & 1 || !edit ? vx_pick(N, "mixin") : vx_choose(N, "mixin"))); }
    // from nothing, a list or a type
    bool distinct = true; for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < i; ++j) distinct &= l[i] != l[j];
    dnmx_type_mutation_handle h = nullptr; std::unique_ptr<type_mutation> own;
    if (from == 0) { own.reset(new type_mutation(dom)); for (auto* x : l) own->add(*x); h = own->to_c_hanlde(); }
    else if (from == 1) { vx_assume(distinct); own.reset(new type_mutation(dom.get_type(l))); h = own->to_c_hanlde(); }
    else { if (from == 3) { vx_assume(distinct); h = dnmx_create_type_mutation_from_type(&dom.get_type(l)); } else { h = dnmx_create_type_mutation_empty(dom.to_c_hanlde()); vx_check(h && dnmx_type_mutation_set_mixins(h, l.data(), (uint32_t)l.size()), "mixins can be set"); } }
    vx_check(h != nullptr, "a mutation is made"); type_mutation& t = *type_mutation::from_c_handle(h);
    vx_check(&t.dom == &dom && dnmx_type_mutation_get_domain(h) == dom.to_c_hanlde(), "a mutation knows its domain"); vx_check(same_list(t, l), "a mutation begins with what it was made of");
    // a mixin which the domain no longer has may be in the list, but is not found by name any more
    if (from != 1 && from != 3 && vx_flag("gone")) { dom.unregister_mixin(m[2]); if (named == m + 2) { reg = nullptr; vx_reach("gone"); } }
        for (int st = 0; edit && st < (VX_TIER == 2 || l.size() < 2 ? 2 : 1); ++st) {
        const mixin_info* x = m + vx_choose(N, "operand"); list was = l; thrown e = T_none;
        switch (vx_pick(19, "operation")) {
        case 0: t.add(*x); l.push_back(x); break;
        case 1: { const mixin_info* r = nullptr; e = tries([&] { r = &t.add(name); }); vx_check(e == (reg ? T_none : T_type) && r == reg, "adding by name finds the mixin or fails"); if (reg) l.push_back(reg); else vx_reach("unknown"); break; }
        case 2: vx_check(t.safe_add(name) == reg, "adding safely by name finds the mixin or gives null"); if (reg) l.push_back(reg); break;
        case 3: { bool lack = !in(l, x); vx_check(t.add_if_lacking(*x) == lack, "adding if lacking tells whether it did"); if (lack) l.push_back(x); break; }
        case 4: { const mixin_info* r = nullptr; e = tries([&] { r = t.add_if_lacking(name); }); bool there = named && in(l, named), lack = reg && !there;
            vx_check(e == (reg || there ? T_none : T_type) && r == (lack ? named : nullptr), "adding by name if lacking gives what it added"); if (lack) l.push_back(named); break; }
        case 5: { bool lack = reg && !in(l, named); vx_check(t.safe_add_if_lacking(name) == (lack ? named : nullptr), "adding safely by name if lacking gives what it added"); if (lack) l.push_back(named); break; }
        case 6: vx_check(t.remove(*x) == drop(l, x), "removing tells whether it was there"); break;
        case 7: vx_check(t.remove(name) == (named && drop(l, named) ? named : nullptr), "removing by name gives what was there"); break;
        case 8: { bool is = in(l, x); e = tries([&] { t.to_back(*x); }); vx_check(e == (is ? T_none : T_type), "only what is there can be moved"); if (is) { drop(l, x); l.push_back(x); } break; }
        case 9: { bool is = named && in(l, named); const mixin_info* r = nullptr; e = tries([&] { r = &t.to_back(name); }); vx_check(e == (is ? T_none : T_type) && r == (is ? named : nullptr), "only what is there can be moved by name"); if (is) { drop(l, named); l.push_back(named); } break; }
        case 10: t.dedup(); keep_last(l); vx_reach("dedup"); break;
        case 11: vx_check(dnmx_type_mutation_add(h, x), "C: adding"); l.push_back(x); break;
        case 12: { bool lack = !in(l, x); vx_check(dnmx_type_mutation_add_if_lacking(h, x) == lack, "C: adding if lacking tells whether it did"); if (lack) l.push_back(x); break; }
        case 13: vx_check(dnmx_type_mutation_remove(h, x) == drop(l, x), "C: removing tells whether it was there"); break;
        case 14: vx_check(dnmx_type_mutation_remove_by_name(h, cname) == (named && drop(l, named) ? named : nullptr), "C: removing by name gives what was there"); break;
        case 15: { bool is = in(l, x); vx_check(dnmx_type_mutation_to_back(h, x) == is, "C: only what is there can be moved"); if (is) { drop(l, x); l.push_back(x); } break; }
        case 16: { bool is = named && in(l, named); vx_check(dnmx_type_mutation_to_back_by_name(h, cname) == (is ? named : nullptr), "C: only what is there can be moved by name"); if (is) { drop(l, named); l.push_back(named); } break; }
        case 17: dnmx_type_mutation_dedup(h); keep_last(l); break;
        default: { list n = {x, m}; vx_check(dnmx_type_mutation_set_mixins(h, n.data(), 2), "C: setting"); l = n; } }
        vx_check(same_list(t, l), "the mutation is the edited list"); uint32_t cn = 77; auto* cp = dnmx_type_mutation_get_mixins(h, &cn); vx_check(cn == l.size() && (cn == 0 || cp == t.mixins.data()), "C: the same list");
    }
    if (!edit) { vx_reach("asked");
    const mixin_info* x = m + vx_choose(N, "asked"); bool has = in(l, x), hasn = named && in(l, named);
    vx_check(t.has(*x) == has && t.lacks(*x) == !has && dnmx_type_mutation_has(h, x) == has, "has and lacks tell what is in the list");
    vx_check(t.has(name) == (hasn ? named : nullptr) && t.lacks(name) == !hasn && dnmx_type_mutation_has_by_name(h, cname) == (hasn ? named : nullptr), "the same by name");
    uint32_t k = vx_pick(3, "feature"); bool strong = k == 0 ? in(l, m + 1) || in(l, m + 2) : k == 1 ? in(l, m + 2) : false; const char* fn[] = {"f", "g", "h"};
    vx_check(t.implements_strong(f[k]) == strong && dnmx_type_mutation_implements_strong(h, &f[k]) == strong, "strong implementations are those of mixins");
    vx_check(t.implements_strong(fn[k]) == (strong ? &f[k] : nullptr) && dnmx_type_mutation_implements_strong_by_name(h, dnmx_make_sv_str(fn[k])) == (strong ? &f[k] : nullptr), "the same by name of the feature");
    vx_check(t.implements(f[k]) == (strong || k == 1) && dnmx_type_mutation_implements(h, &f[k]) == (strong || k == 1), "a default implements, too"); }
    if (from >= 2) dnmx_destroy_unused_type_mutation(h);
#else
    domain& dom = g::get_domain<dom_tag>(); const mixin_info* m[N] = {&g::get_mixin_info<A>(), &g::get_mixin_info<B>(), &g::get_mixin_info<C>()};
    checked_resource mem; { type_mutation t(dom, allocator(&mem)); list l; { uint32_t n = vx_pick(4, "length"); for (uint32_t i = 0; i < n; ++i) l.push_back(m[vx_choose(N, "mixin")]); for (auto* x : l) t.add(*x); }
    for (int st = 0; st < 2; ++st) {
        switch (vx_pick(5, "operation")) {
        case 0: vx_check(&t.add<A>() == m[0], "adding by type"); l.push_back(m[0]); break;
        case 1: { bool lack = !in(l, m[1]); vx_check(t.add_if_lacking<B>() == lack, "adding by type if lacking"); if (lack) l.push_back(m[1]); break; }
        case 2: vx_check(t.remove<C>() == drop(l, m[2]), "removing by type"); break;
        case 3: { bool is = in(l, m[0]); vx_check(tries([&] { t.to_back<A>(); }) == (is ? T_none : T_type), "moving by type"); if (is) { drop(l, m[0]); l.push_back(m[0]); } break; }
        default: t.dedup(); keep_last(l); }
        vx_check(same_list(t, l), "the mutation is the edited list");
        vx_check(t.has<A>() == in(l, m[0]) && t.lacks<B>() == !in(l, m[1]) && t.has<C>() == in(l, m[2]), "has and lacks by type");
    }
    // without memory an edit fails and changes nothing
    mem.fail_at = 0; thrown e = vx_flag("by name") ? tries([&] { t.add("B"); }) : tries([&] { t.add(*m[1]); }); if (e == T_none) l.push_back(m[1]); else { vx_check(e == T_alloc, "no memory"); vx_reach("no memory"); } vx_check(same_list(t, l), "a failed edit changes nothing"); }
#endif
    vx_reach("end");
}
