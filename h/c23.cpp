// C23: the provided mutation rules; PART 1: common rules, 2: v1 rules
#include "lib.hpp"
#include <dynamix/declare_domain.hpp>
#include <dynamix/define_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <v1compat_names.hpp>
struct A {}; struct B {}; struct C {}; struct D {};
DYNAMIX_DECLARE_MIXIN(struct A); DYNAMIX_DECLARE_MIXIN(struct B); DYNAMIX_DECLARE_MIXIN(struct C); DYNAMIX_DECLARE_MIXIN(struct D);
static const mixin_info* inf[4]; static const char* nm[] = {"A", "B", "C", "D"};
static bool in(const list& l, const mixin_info* m) { for (auto* x : l) if (x == m) return true; return false; }
static void drop(list& l, const mixin_info* m) { for (size_t i = 0; i < l.size(); ++i) if (l[i] == m) { l.erase(l.begin() + i); return; } }
static void lack(list& l, const mixin_info* m) { if (!in(l, m)) l.push_back(m); }
static list request(uint32_t maxn) { list r; uint32_t n = vx_pick(maxn + 1, "length"), c[4]; for (uint32_t i = 0; i < n; ++i) { c[i] = vx_choose(4, "mixin"); for (uint32_t j = 0; j < i; ++j) vx_assume(c[i] != c[j]); r.push_back(inf[c[i]]); } return r; }
static void infos() { inf[0] = &g::get_mixin_info<A>(); inf[1] = &g::get_mixin_info<B>(); inf[2] = &g::get_mixin_info<C>(); inf[3] = &g::get_mixin_info<D>(); }
static bool set_equal(mspan t, const list& l) { if (t.size() != l.size()) return false; for (auto* m : t) if (!in(l, m)) return false; return true; }
static const type& ask(domain& d, const list& l, bool mut) { if (!mut) return d.get_type(l); type_mutation m(d); for (auto* x : l) m.add(*x); return d.get_type(std::move(m)); }
#if PART == 1
DYNAMIX_DECLARE_DOMAIN(dom_tag); DYNAMIX_DEFINE_DOMAIN(dom_tag, "d");
#if ORDER
DYNAMIX_DEFINE_MIXIN(dom_tag, A);
DYNAMIX_DEFINE_MIXIN(dom_tag, B).on_mutation(attaches_to<A>(), 5_prio);
DYNAMIX_DEFINE_MIXIN(dom_tag, C).on_mutation(attaches_to<B>(), -1_prio); // runs before what makes it needed
DYNAMIX_DEFINE_MIXIN(dom_tag, D).on_mutation(also_adds<A>(), 9_prio);
#else
DYNAMIX_DEFINE_MIXIN(dom_tag, D).on_mutation(also_adds<A>());
DYNAMIX_DEFINE_MIXIN(dom_tag, C).on_mutation(attaches_to<B>());
DYNAMIX_DEFINE_MIXIN(dom_tag, B).on_mutation(attaches_to<A>());
DYNAMIX_DEFINE_MIXIN(dom_tag, A);
#endif
extern "C" void vx_main() {
    infos(); domain& d = g::get_domain<dom_tag>(); vx_check(!inf[0]->dependency && inf[1]->dependency && inf[2]->dependency && !inf[3]->dependency, "what attaches is a dependency, what adds others is not");
    list l = request(4), w; for (auto* m : l) if (m != inf[1] && m != inf[2]) w.push_back(m);
    bool primary = in(l, inf[0]) || in(l, inf[3]); size_t base = w.size(); if (primary) { lack(w, inf[0]); lack(w, inf[1]); lack(w, inf[2]); }
    const type& t = ask(d, l, vx_flag("mutation"));
    vx_check(set_equal(t.mixins, w), "mixins are attached and added exactly with their primary, once"); for (size_t i = 0; i < base; ++i) vx_check(t.mixins[i] == w[i], "what was asked for stays in front");
    vx_check(&ask(d, l, vx_flag("mutation")) == &t && &d.get_type(t.mixins) == &t, "the same again");
    object o(t); // an object follows
    uint32_t k = vx_pick(4, "other"); const mixin_info& x = *inf[k]; list v(t.mixins.begin(), t.mixins.end()); bool there = in(v, &x);
    thrown e = tries([&] { if (there) mutate(o, remove(x)); else mutate(o, add(x)); }); vx_check(e == T_none, "a mutation goes through the rules");
    list r; for (auto* m : v) if (m != inf[1] && m != inf[2] && !(there && m == &x)) r.push_back(m); if (!there && k != 1 && k != 2) r.push_back(&x);
    if (in(r, inf[0]) || in(r, inf[3])) { lack(r, inf[0]); lack(r, inf[1]); lack(r, inf[2]); }
    vx_check(set_equal(o.get_type().mixins, r), "mixins come and go with their primary"); if (there && k == 0 && !in(v, inf[3])) { vx_check(o.empty(), "what was attached goes"); vx_reach("gone"); }
    if (primary) vx_reach("attached"); vx_reach("end");
}
#else
DYNAMIX_DEFINE_MIXIN(v1::domain_tag, A); DYNAMIX_DEFINE_MIXIN(v1::domain_tag, B); DYNAMIX_DEFINE_MIXIN(v1::domain_tag, C); DYNAMIX_DEFINE_MIXIN(v1::domain_tag, D).dependency();
template <class R> static void fill(R& r, uint32_t bits, bool by_name) { for (int i = 0; i < 4; ++i) if (bits >> i & 1) { if (by_name) r.add(std::string_view(nm[i])); else if (i == 1) r.template add<B>(); else r.add(*inf[i]); } }
static void canon(list& l) { std::sort(l.begin(), l.end()); list r; for (auto* m : inf) if (in(l, m)) r.push_back(m); l = r; }
extern "C" void vx_main() {
    infos(); domain& d = v1::domain::instance();
    if (vx_flag("history")) { // adding and removing rules
        std::shared_ptr<v1::mutation_rule> rs[3] = {std::make_shared<v1::mandatory_mixin<A>>(), std::make_shared<v1::mandatory_mixin<B>>(), std::make_shared<v1::deprecated_mixin<C>>()};
        int on[3] = {}; std::vector<std::pair<uint32_t, int>> ids; // live ids and their rules
        for (int st = 0; st < (VX_TIER == 2 ? 5 : 4); ++st) {
            if (vx_flag("add")) { int k = (int)vx_pick(3, "rule"); uint32_t id = v1::add_mutation_rule(rs[k]); for (auto& x : ids) vx_check(x.first != id, "ids of rules differ"); ids.push_back({id, k}); ++on[k]; }
            else { uint32_t id = vx_u32("id"); int k = -1; size_t at = 0; for (size_t i = 0; i < ids.size(); ++i) if (ids[i].first == id) { k = ids[i].second; at = i; }
                auto r = v1::remove_mutation_rule(id); vx_check(k < 0 ? !r : r == rs[k], "removing gives the rule which was added, or nothing"); if (k >= 0) { ids.erase(ids.begin() + at); --on[k]; vx_reach("removed"); } else vx_reach("no such id"); }
            list w; if (on[0]) w.push_back(inf[0]); if (on[1]) w.push_back(inf[1]); if (!on[2]) w.push_back(inf[2]);
            vx_check(same(d.get_type(list{inf[2]}).mixins, w), "exactly the rules which are there apply");
        }
        for (auto& x : ids) v1::remove_mutation_rule(x.first);
    } else {
        uint32_t kind = vx_pick(6, "rule"), bits = 0; bool byn = false; v1::mutation_rule* r; if (kind < 3) { bits = vx_pick(16, "list"); byn = vx_flag("by name"); }
        switch (kind) {
        case 0: { auto x = new v1::dependent_mixins_oneshot; x->set_master<A>(); fill(*x, bits, byn); r = x; break; }
        case 1: { auto x = new v1::dependent_mixins_dep; x->set_master<A>(); fill(*x, bits, byn); r = x; break; }
        case 2: { auto x = new v1::mutually_exclusive_mixins; fill(*x, bits, byn); r = x; break; }
        case 3: r = new v1::deprecated_mixin<A>; break; case 4: r = new v1::mandatory_mixin<B>; break; default: r = new v1::substitute_mixin<A, C>; }
        uint32_t id = v1::add_mutation_rule(r); list l = request(VX_TIER == 2 ? 4 : 3), w; for (auto* m : l) if (m != inf[3]) w.push_back(m); bool error = false;
        switch (kind) {
        case 0: if (in(w, inf[0])) for (int i = 0; i < 4; ++i) if (bits >> i & 1) lack(w, inf[i]); break;
        case 1: if (in(w, inf[0])) { error = bits & 7; if (bits & 8) lack(w, inf[3]); } break;
        case 2: { int last = -1; for (size_t i = 0; i < w.size(); ++i) for (int j = 0; j < 4; ++j) if (w[i] == inf[j] && bits >> j & 1) last = j; for (int j = 0; j < 4; ++j) if (bits >> j & 1 && j != last) drop(w, inf[j]); break; }
        case 3: drop(w, inf[0]); break; case 4: lack(w, inf[1]); break; default: if (in(w, inf[0])) { drop(w, inf[0]); lack(w, inf[2]); } }
        if (!error) { type_mutation tm(d); for (auto* m : l) if (m != inf[3]) tm.add(*m); r->apply_to(tm); vx_check(kind == 5 ? set_equal(tm.mixins, w) : same(tm.mixins, w), "the rule leaves the order of the rest"); r->apply_to(tm); vx_check(set_equal(tm.mixins, w), "and changes nothing the second time"); }
        canon(w); bool mut = vx_flag("mutation"); const type* t = nullptr; thrown e = tries([&] { t = &ask(d, l, mut); });
        if (error) { vx_check(e == T_type, "a dependency rule is for dependencies"); vx_reach("no dependency"); } else { vx_check(e == T_none && same(t->mixins, w), "the rule does what its name says"); vx_reach("applied"); }
        std::shared_ptr<v1::mutation_rule> back = v1::remove_mutation_rule(id); vx_check(back.get() == r, "the rule comes back"); vx_check(!v1::remove_mutation_rule(id), "once");
        list p; for (auto* m : l) if (m != inf[3]) p.push_back(m); canon(p); vx_check(same(ask(d, l, mut).mixins, p), "a removed rule does nothing");
        if (kind < 3) vx_check(tries([&] { if (kind == 2) ((v1::mutually_exclusive_mixins*)r)->add("Z"); else ((v1::dependent_mixins_dep*)r)->add(std::string_view("Z")); }) == T_type, "an unknown name is an error");
    }
    vx_reach("end");
}
#endif
