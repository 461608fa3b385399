// C18 (PROP 18): registered infos are found, with unique stable ids; C19 (PROP 19): failing registrations change nothing
#include "lib.hpp"
#include <dynamix/type_class.hpp>
#include <dynamix/domain_settings_builder.hpp>
#define NI 3
#if PROP == 18
#define chk18(c, m) vx_check(c, m)
#define chk19(c, m) (void)(c)
#else
#define chk18(c, m) (void)(c)
#define chk19(c, m) vx_check(c, m)
#endif
static bool match(dnmx_type_handle) noexcept { return true; }
static bool sv_same(dnmx_sv a, dnmx_sv b) { size_t n = a.end - a.begin; if (size_t(b.end - b.begin) != n) return false; return n == 0 || *a.begin == *b.begin; } // of at most one byte
static char ch[NI]; static dnmx_sv name[NI]; static bool empty[NI];
static void names(bool e) { for (int i = 0; i < NI; ++i) { vx_bytes(&ch[i], 1, "name"); empty[i] = i == 1 && e; name[i] = dnmx_make_sv_len(&ch[i], empty[i] ? 0 : 1); } }
struct model { int dom[NI] = {-1, -1, -1}; uint32_t id[NI] = {}; };

static void mixins() {
    uint32_t cfg = vx_pick(5, "config"); bool dup = cfg == 1, hasF = cfg >= 3; names(cfg == 2 || cfg == 1);
    mixin_info m[NI] = {plain("x"), plain("x"), plain("x")}; feature_info f[2] = {feat("f"), feat(cfg == 4 ? "f" : "g")}; feature_for_mixin ff[2] = {{&f[0], (dnmx_feature_payload)&m, 0, 0}, {&f[1], (dnmx_feature_payload)&m, 0, 0}};
    for (int i = 0; i < NI; ++i) m[i].name = name[i];
    if (hasF) { m[0].features = ff; m[0].num_features = 2; }
    domain a("a", domain_settings_builder().allow_duplicate_mixin_names(dup)), b("b", domain_settings_builder().allow_duplicate_mixin_names(dup)); domain* D[2] = {&a, &b};
    model s;
    auto verify = [&] {
        for (int d = 0; d < 2; ++d) {
            uint32_t ids[NI]; int n = 0;
            for (int i = 0; i < NI; ++i) if (s.dom[i] == d) {
                vx_check(m[i].id.i == s.id[i] && m[i].dom == D[d]->to_c_hanlde(), "a registered info keeps its id and domain");
                vx_check(D[d]->get_mixin_info(mixin_id{s.id[i]}) == &m[i], "found by its id");
                auto* g = D[d]->get_mixin_info(m[i].name.to_std()); bool ok = g == &m[i]; if (dup) for (int j = 0; j < NI; ++j) ok |= s.dom[j] == d && g == &m[j] && sv_same(name[j], name[i]);
                vx_check(ok, "found by its name");
                for (int k = 0; k < n; ++k) vx_check(ids[k] != s.id[i], "ids are unique"); ids[n++] = s.id[i];
            }
            for (uint32_t id = 0; id < 4; ++id) { bool reg = false; for (int k = 0; k < n; ++k) reg |= ids[k] == id; vx_check((D[d]->get_mixin_info(mixin_id{id}) != nullptr) == reg, "nothing is found under an id which is not taken"); }
            vx_check(!D[d]->get_mixin_info(invalid_mixin_id), "nothing is found under the invalid id");
            for (int i = 0; i < NI; ++i) if (s.dom[i] != d) { bool other = false; for (int j = 0; j < NI; ++j) other |= s.dom[j] == d && sv_same(name[j], name[i]); if (!other) vx_check(!D[d]->get_mixin_info(name[i].to_std()), "nothing is found under the name of an unregistered info"); }
        }
        for (int i = 0; i < NI; ++i) if (s.dom[i] < 0) vx_check(m[i].id == invalid_mixin_id && m[i].dom == nullptr, "an unregistered info has no id and domain");
    };
    uint32_t R = VX_TIER == 2 ? 5 : 4;
    for (uint32_t r = 0; r < R; ++r) {
        uint32_t op = vx_pick(r ? 4 : 2, "op"), d = op & 1; int i = (int)vx_conc(vx_choose(NI, "mixin"));
        if (op < 2) {
            bool bad = s.dom[i] >= 0; if (!dup) { bad = bad || empty[i]; for (int j = 0; j < NI; ++j) if (s.dom[j] == (int)d) bad = bad || sv_same(name[i], name[j]); }
            bool fbad = false;
            if (hasF && i == 0) { if (d == 1) { vx_assume(false); } fbad = f[0].name.to_std() == f[1].name.to_std(); } // features of another domain: not allowed
            thrown e = tries([&] { D[d]->register_mixin(m[i]); });
            vx_check((e != T_none) == (bad || fbad), "registration fails exactly when it must"); vx_check(e == T_none || e == T_domain, "with a domain error");
            if (e == T_none) { s.dom[i] = d; s.id[i] = m[i].id.i; if (hasF && i == 0) for (auto& x : f) chk18(x.id != invalid_feature_id && D[d]->get_feature_info(x.id) == &x && D[d]->get_feature_info(x.name.to_std()) == &x, "registering a mixin registers its features"); vx_reach("registered"); }
            else vx_reach("not registered");
        } else {
            bool bad = s.dom[i] != (int)d; size_t nt[2], nq[2]; list q;
#if PROP == 19
            for (int k = 0; k < 2; ++k) { q.clear(); for (int j = 0; j < NI; ++j) if (s.dom[j] == k) q.push_back(&m[j]); if (bad) D[k]->get_type(q); nt[k] = D[k]->num_types(); nq[k] = D[k]->num_type_queries(); }
#endif
            thrown e = tries([&] { D[d]->unregister_mixin(m[i]); });
            vx_check((e != T_none) == bad, "unregistration fails exactly for an info which is not registered there"); vx_check(e == T_none || e == T_domain, "with a domain error");
            if (e == T_none) { s.dom[i] = -1; vx_reach("unregistered"); }
#if PROP == 19
            else { for (int k = 0; k < 2; ++k) vx_check(D[k]->num_types() == nt[k] && D[k]->num_type_queries() == nq[k], "a failed unregistration drops no types"); vx_reach("not unregistered"); }
#endif
        }
        verify();
    }
    for (int i = 0; i < NI; ++i) if (s.dom[i] >= 0) { D[s.dom[i]]->unregister_mixin(m[i]); s.dom[i] = -1; }
    verify();
}
static void features() {
    uint32_t cfg = vx_pick(3, "config"); bool dup = cfg == 1; names(cfg != 0);
    feature_info m[NI] = {feat("x"), feat("x"), feat("x")}; for (int i = 0; i < NI; ++i) m[i].name = name[i];
    domain a("a", domain_settings_builder().allow_duplicate_feature_names(dup)), b("b", domain_settings_builder().allow_duplicate_feature_names(dup)); domain* D[2] = {&a, &b};
    model s;
    uint32_t R = VX_TIER == 2 ? 5 : 4;
    for (uint32_t r = 0; r < R; ++r) {
        uint32_t op = vx_pick(r ? 4 : 2, "op"), d = op & 1; int i = (int)vx_conc(vx_choose(NI, "feature"));
        if (op < 2) {
            bool bad = s.dom[i] >= 0; if (!dup) { bad = bad || empty[i]; for (int j = 0; j < NI; ++j) if (s.dom[j] == (int)d) bad = bad || sv_same(name[i], name[j]); }
            thrown e = tries([&] { D[d]->register_feature(m[i]); });
            vx_check((e != T_none) == bad, "registration fails exactly when it must"); vx_check(e == T_none || e == T_domain, "with a domain error");
            if (e == T_none) { s.dom[i] = d; s.id[i] = m[i].id.i; }
        } else {
            // an id alone does not tell the domain of a feature
            thrown e = tries([&] { D[d]->unregister_feature(m[i]); });
            vx_check((e != T_none) == (s.dom[i] != (int)d), "unregistration fails exactly for an info which is not registered there"); vx_check(e == T_none || e == T_domain, "with a domain error");
            if (e == T_none) s.dom[i] = -1;
        }
        for (int d2 = 0; d2 < 2; ++d2) {
            uint32_t ids[NI]; int n = 0;
            for (int k = 0; k < NI; ++k) if (s.dom[k] == d2) {
                vx_check(m[k].id.i == s.id[k] && D[d2]->get_feature_info(feature_id{s.id[k]}) == &m[k], "a registered feature keeps its id and is found by it");
                auto* g = D[d2]->get_feature_info(m[k].name.to_std()); bool ok = g == &m[k]; if (dup) for (int j = 0; j < NI; ++j) ok |= s.dom[j] == d2 && g == &m[j] && sv_same(name[j], name[k]);
                vx_check(ok, "found by its name"); for (int l = 0; l < n; ++l) vx_check(ids[l] != s.id[k], "ids are unique"); ids[n++] = s.id[k];
            } else { bool other = false; for (int j = 0; j < NI; ++j) other |= s.dom[j] == d2 && sv_same(name[j], name[k]); if (!other) vx_check(!D[d2]->get_feature_info(name[k].to_std()), "nothing is found under the name of an unregistered feature"); }
            for (uint32_t id = 0; id < 4; ++id) { bool reg = false; for (int l = 0; l < n; ++l) reg |= ids[l] == id; vx_check((D[d2]->get_feature_info(feature_id{id}) != nullptr) == reg, "nothing is found under an id which is not taken"); }
        }
        for (int k = 0; k < NI; ++k) if (s.dom[k] < 0) vx_check(m[k].id == invalid_feature_id, "an unregistered feature has no id");
    }
    vx_reach("features");
}
static void classes() {
    names(vx_flag("empty")); type_class t[NI] = {}; bool nofn = vx_flag("no_function");
    for (int i = 0; i < NI; ++i) { t[i].name = name[i]; t[i].matches = nofn && i == 2 ? nullptr : match; }
    domain a("a"); bool in[NI] = {};
    uint32_t R = VX_TIER == 2 ? 6 : 5;
    for (uint32_t r = 0; r < R; ++r) {
        bool reg = vx_flag("register"); int i = (int)vx_conc(vx_choose(NI, "class"));
        if (reg) {
            bool bad = empty[i] || (nofn && i == 2); for (int j = 0; j < NI; ++j) if (in[j]) bad = bad || sv_same(name[i], name[j]);
            thrown e = tries([&] { a.register_type_class(t[i]); });
            vx_check((e != T_none) == bad, "registration fails exactly when it must"); vx_check(e == T_none || e == T_domain, "with a domain error");
            if (e == T_none) in[i] = true;
        } else { thrown e = tries([&] { a.unregister_type_class(t[i]); }); vx_check(e == T_none || !in[i], "a registered type class can be unregistered"); in[i] = false; }
        for (int k = 0; k < NI; ++k) { auto* g = a.get_type_class(name[k].to_std()); const type_class* want = nullptr; for (int j = 0; j < NI; ++j) if (in[j] && sv_same(name[j], name[k])) want = &t[j]; vx_check(g == want, "exactly the registered type classes are found by name"); }
    }
    vx_reach("classes");
}
#if PROP == 19
// out of memory, and rules without a function
static void faults() {
    checked_resource mem; mixin_info m[2] = {plain("a"), plain("b")}; feature_info f = feat("f"), g = feat("g"); feature_for_mixin ff = {&f, (dnmx_feature_payload)&m, 0, 0}; m[0].features = &ff; m[0].num_features = 1; type_class t = {}; t.name = dnmx_make_sv_str("t"); t.matches = match; mutation_rule_info bad = rule("r", nullptr), good = rule("g", [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; });
    { domain dom("d", domain_settings{}, 0, nullptr, allocator(&mem)); uint32_t what = vx_pick(4, "what"); if (vx_flag("earlier")) dom.register_mixin(m[1]);
    vx_check(tries([&] { dom.add_mutation_rule(bad); }) == T_domain && dom.num_mutation_rules() == 0, "a rule without function is refused");
    mem.count = 0; mem.fail_at = (int)vx_choose(3, "fail_at");
    thrown e = tries([&] { switch (what) { case 0: dom.register_mixin(m[0]); break; case 1: dom.register_feature(g); break; case 2: dom.register_type_class(t); break; default: dom.add_mutation_rule(good); } });
    bool failed = mem.failed; mem.fail_at = -1;
    vx_check((e == T_alloc) == failed && (failed || e == T_none), "running out of memory is reported");
    if (failed) {
        switch (what) {
        case 0: vx_check(m[0].id == invalid_mixin_id && !m[0].dom && !dom.get_mixin_info("a") , "the info stays unregistered"); vx_check((f.id == invalid_feature_id) == !dom.get_feature_info("f"), "a feature is registered or not"); break;
        case 1: vx_check(g.id == invalid_feature_id && !dom.get_feature_info("g") && !dom.get_feature_info(feature_id{0}), "the feature stays unregistered"); break;
        case 2: vx_check(!dom.get_type_class("t"), "the type class stays unregistered"); break;
        default: vx_check(dom.num_mutation_rules() == 0, "the rule is not added"); break;
        }
        vx_reach("out of memory");
        switch (what) { case 0: dom.register_mixin(m[0]); vx_check(dom.get_mixin_info("a") == &m[0] && dom.get_feature_info("f") == &f, "it can be registered later"); break; case 1: dom.register_feature(g); break; case 2: dom.register_type_class(t); vx_check(dom.get_type_class("t") == &t, "later"); break; default: dom.add_mutation_rule(good); }
    } }
    vx_check(mem.nlive == 0, "nothing leaks");
}
#endif
// a larger registry with gaps: one more registration in any state of it
#define NG 5
template <class Info, class Id, class Reg, class Unreg, class ById, class ByName> static void gaps(bool dup, Info (&m)[NG + 1], Id invalid, Reg reg, Unreg unreg, ById by_id, ByName by_name) {
    static char c[NG + 1]; vx_bytes(c, NG + 1, "name"); uint32_t id[NG]; uint32_t gone = vx_pick(1 << NG, "gone");
    for (int i = 0; i <= NG; ++i) { m[i].name = dnmx_make_sv_len(&c[i], 1); for (int j = 0; j < i && i < NG && !dup; ++j) vx_assume(c[i] != c[j]); }
    for (int i = 0; i < NG; ++i) { reg(m[i]); id[i] = m[i].id.i; }
    bool clash = false;
    for (int i = 0; i < NG; ++i) if (gone >> i & 1) unreg(m[i]); else clash = clash | (c[i] == c[NG]);
    thrown e = tries([&] { reg(m[NG]); }); bool bad = clash && !dup;
    vx_check(e == (bad ? T_domain : T_none), "registration fails exactly when it must");
    vx_check((m[NG].id != invalid) == !bad, "an info has an id exactly when it is registered"); uint32_t nid = m[NG].id.i;
    for (int i = 0; i < NG; ++i) {
        if (gone >> i & 1) { vx_check(m[i].id == invalid, "an unregistered info has no id"); auto* at = by_id(id[i]); vx_check(at == (!bad && nid == id[i] ? &m[NG] : nullptr), "nothing is found under an id which is not taken"); }
        else { vx_check(m[i].id.i == id[i] && by_id(id[i]) == &m[i], "a registered info keeps its id and is found by it"); vx_check(bad || nid != id[i], "ids are unique"); if (!dup) vx_check(by_name(c[i]) == &m[i], "found by its name"); else vx_check(by_name(c[i]) && *by_name(c[i])->name.begin == c[i], "found by its name"); }
    }
    if (!bad) { vx_check(by_id(nid) == &m[NG], "found by its id"); auto* g = by_name(c[NG]); vx_check(dup ? g && *g->name.begin == c[NG] : g == &m[NG], "found by its name"); }
    for (uint32_t k = 0; k < NG + 3; ++k) { auto* g = by_id(k); vx_check(!g || g->id.i == k, "what is found under an id has it"); }
    vx_check(!by_id(invalid.i), "nothing is found under the invalid id");
}
static void gaps() {
    bool dup = vx_flag("duplicates"); domain d("a", domain_settings_builder().allow_duplicate_mixin_names(dup).allow_duplicate_feature_names(dup));
    if (vx_flag("mixins")) { mixin_info m[NG + 1] = {plain("x"), plain("x"), plain("x"), plain("x"), plain("x"), plain("x")};
        gaps(dup, m, invalid_mixin_id, [&](mixin_info& i) { d.register_mixin(i); }, [&](mixin_info& i) { d.unregister_mixin(i); }, [&](uint32_t i) { return d.get_mixin_info(mixin_id{i}); }, [&](char& c) { return d.get_mixin_info(std::string_view(&c, 1)); }); }
    else { feature_info m[NG + 1] = {feat("x"), feat("x"), feat("x"), feat("x"), feat("x"), feat("x")};
        gaps(dup, m, invalid_feature_id, [&](feature_info& i) { d.register_feature(i); }, [&](feature_info& i) { d.unregister_feature(i); }, [&](uint32_t i) { return d.get_feature_info(feature_id{i}); }, [&](char& c) { return d.get_feature_info(std::string_view(&c, 1)); }); }
    vx_reach("gaps");
}
static void class_gaps() {
    static char c[NG + 1]; vx_bytes(c, NG + 1, "name"); type_class t[NG + 1] = {}; domain d("a"); uint32_t gone = vx_pick(1 << NG, "gone"); bool clash = false;
    for (int i = 0; i <= NG; ++i) { t[i].matches = match; t[i].name = dnmx_make_sv_len(&c[i], 1); for (int j = 0; j < i && i < NG; ++j) vx_assume(c[i] != c[j]); }
    for (int i = 0; i < NG; ++i) d.register_type_class(t[i]);
    for (int i = 0; i < NG; ++i) if (gone >> i & 1) d.unregister_type_class(t[i]); else clash = clash | (c[i] == c[NG]);
    thrown e = tries([&] { d.register_type_class(t[NG]); }); vx_check(e == (clash ? T_domain : T_none), "registration fails exactly when it must");
    for (int i = 0; i < NG; ++i) { auto* g = d.get_type_class(std::string_view(&c[i], 1)); if (gone >> i & 1) vx_check(g == nullptr || (g == &t[NG] && !clash), "an unregistered type class is not found"); else vx_check(g == &t[i], "a registered type class is found"); }
    if (!clash) { vx_check(d.get_type_class(std::string_view(&c[NG], 1)) == &t[NG], "a registered type class is found");
        d.unregister_type_class(t[NG]); vx_check(!d.get_type_class(std::string_view(&c[NG], 1)), "an unregistered type class is not found"); }
    for (int i = 0; i < NG; ++i) if (gone >> i & 1) { d.register_type_class(t[i]); vx_check(d.get_type_class(std::string_view(&c[i], 1)) == &t[i], "a registered type class is found"); }
}
extern "C" void vx_main() {
    switch (vx_pick(PROP == 19 ? 6 : 5, "part")) {
    case 0: mixins(); break; case 1: features(); break; case 2: classes(); break; case 3: gaps(); break; case 4: class_gaps(); break;
#if PROP == 19
    case 5: faults(); break;
#endif
    }
    vx_reach("end");
}
