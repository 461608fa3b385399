// C38: dumps and traversals show exactly what is there, end, and leave everything as it was
#include "lib.hpp"
#include <ostream>
#include <dynamix/dbg_dmp.hpp>
#include <dynamix/domain_traverse.hpp>
#include <dynamix/type_class.hpp>
// what a dump consists of: quoted names, some words, values; everything else is decoration, of which only the end before a value may matter
enum tk { Q, WORD, NUM, PTR, BOOL };
struct tok { tk k; std::string s; uint64_t v = 0; std::string label; };
typedef std::vector<tok> toks;
static const char* words[] = {"none", "<null>", "external", "internal", "unregistered", "dep-mixin", "mr", "klass1", "klass2"};
static toks parse(const std::ostream& o) {
    toks r; std::string label;
    auto add = [&](tk k, std::string s, uint64_t v) { r.push_back({k, std::move(s), v, std::move(label)}); label.clear(); };
    for (auto& i : o.items) {
        if (i.k != std::ostream::text) { add(i.k == std::ostream::number ? NUM : i.k == std::ostream::pointer ? PTR : BOOL, {}, i.v); continue; }
        const std::string& s = i.s; size_t n = s.size();
        for (size_t p = 0; p < n; ) {
            if (s[p] == '\'') { // names are put out in one piece
                size_t e = p + 1; while (e < n && s[e] != '\'') ++e;
                vx_check(e < n, "quotes are balanced"); if (e >= n) return r;
                add(Q, s.substr(p + 1, e - p - 1), 0); p = e + 1; continue;
            }
            auto inword = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '<' || c == '>'; };
            if (!inword(s[p])) { label += s[p++]; continue; }
            size_t e = p; while (e < n && inword(s[e])) ++e;
            bool known = false; for (auto* w : words) if (s.compare(p, e - p, w) == 0) known = true;
            if (known) add(WORD, s.substr(p, e - p), 0); else label.append(s, p, e - p);
            p = e;
        }
    }
    return r;
}
struct expect {
    toks e;
    void q(std::string_view s) { e.push_back({Q, std::string(s), 0, {}}); }
    void w(const char* s) { e.push_back({WORD, s, 0, {}}); }
    void n(uint64_t v, const char* label = "") { e.push_back({NUM, {}, v, label}); }
    void b(bool v, const char* label = "") { e.push_back({BOOL, {}, v, label}); }
    void p(const void* p, const char* label = "") { e.push_back({PTR, {}, (uint64_t)p, label}); }
    template <class T> void fp(T* f, const char* label = "") { if (f) p(reinterpret_cast<const void*>(f), label); else e.push_back({WORD, "none", 0, label}); }
    void is(const std::ostream& o) {
        toks r = parse(o); size_t n = r.size() < e.size() ? r.size() : e.size();
        for (size_t i = 0; i < n; ++i) {
            bool ok = r[i].k == e[i].k && r[i].s == e[i].s;
            vx_check(ok, "a dump names everything it should in order"); if (!ok) return;
            vx_check(r[i].v == e[i].v, "a dump shows the values which are there");
            auto& l = r[i].label; auto& x = e[i].label;
            vx_check(l.size() >= x.size() && l.compare(l.size() - x.size(), x.size(), x) == 0, "a dump says what a value is");
        }
        vx_check(r.size() == e.size(), "a dump shows nothing twice and leaves nothing out");
        e.clear();
    }
};
static void e_mixins(expect& e, mspan m) { for (auto* x : m) e.q(x->name.to_std()); }
static void e_feature(expect& e, const feature_info& f) {
    e.q(f.name.to_std()); if (f.id == invalid_feature_id) e.w("unregistered"); else e.n(f.id.i, "id: ");
    e.b(f.allow_clashes, "clashes: "); e.n(f.feature_class, "class: "); e.fp(f.default_payload);
}
static void e_rule(expect& e, const mutation_rule_info& r) { e.q(r.name.to_std()); e.n((int64_t)r.order_priority, "prio: "); e.n(r.user_data, "ud: "); e.fp(r.apply, "apply: "); }
static void e_mixin(expect& e, const mixin_info& m, uint32_t flags, const char* dom) {
    if (m.dependency) e.w("dep-mixin");
    e.q(m.name.to_std()); if (m.id == invalid_mixin_id) e.w("unregistered"); else { e.n(m.id.i, "id: "); e.q(dom); }
    e.w(m.force_external || m.allocator || !m.move_init ? "external" : "internal"); e.n(m.num_features);
    if (flags & dnmx_mixin_dmp_ex) {
        e.n(m.size, " size: "); e.n(m.alignment, " alignment: "); e.n(m.obj_buf_size, "obj_buf_size: "); e.n(m.obj_buf_alignment_and_mixin_offset, "obj_buf_align: ");
        e.fp(m.init, " init: "); e.fp(m.copy_init, "copy_init: "); e.fp(m.move_init, "move_init: "); e.fp(m.copy_asgn, "copy_asgn: "); e.fp(m.move_asgn, "move_asgn: ");
        e.fp(m.destroy, "destroy: "); e.fp(m.equals, "equals: "); e.fp(m.compare, "compare: "); e.fp(m.allocator, "allocator: ");
        e.n(m.mixin_class, " class: "); e.n(m.type_info_class, "type_info_class: "); e.n(m.user_data, "user_data: "); e.n((int64_t)m.order_priority, "order_priority: "); e.b(m.force_external, "force_external: ");
    }
    if (flags & dnmx_mixin_dmp_features) {
        e.n(m.num_features);
        for (uint32_t i = 0; i < m.num_features; ++i) { auto& f = m.features[i]; e.q(f.info->name.to_std()); e.fp((char*)f.payload); e.n((int64_t)f.bid); e.n((int64_t)f.priority); }
    }
}
static void e_type_head(expect& e, const type& t) { e_mixins(e, t.mixins); e.p(&t); e.q(t.dom.name()); }
static bool is1(dnmx_type_handle) noexcept { return true; }
static bool is2(dnmx_type_handle t) noexcept { return type::from_c_handle(t)->num_mixins() == 2; }
struct req { list q; const type* t; };
static void e_type(expect& e, const type& t, uint32_t flags, const std::vector<req>& reqs, const std::vector<const type_class*>& tcs, bool tr) {
    e_type_head(e, t); uint32_t nf = 0; for (uint32_t i = 0; i < t.ftable_length; ++i) nf += !!t.ftable[i];
    if (flags & dnmx_type_dmp_ex) {
        e.n(t.buf_size, " size: "); e.n(t.object_buffer_size, "obj buf size: "); e.n(t.object_buffer_alignment, "obj buf align: "); e.n(t.num_objects(), "num obj: ");
        e.b(t.default_constructible(), "default_constructible: "); e.b(t.copy_constructible(), "copy_constructible: "); e.b(t.copy_assignable(), "copy_assignable: ");
        e.b(t.equality_comparable(), "equality_comparable: "); e.b(t.comparable(), " comparable: "); e.n(nf, "features: "); e.n(t.ftable_length);
    }
    if (flags & dnmx_type_dmp_ftable) {
        e.n(nf);
        for (uint32_t i = 0; i < t.ftable_length; ++i) {
            auto& f = t.ftable[i]; if (!f) continue;
            e.q(f.begin->data->info->name.to_std()); e.n(f.top_bid_back - f.begin + 1); e.n(f.end - f.begin);
            if (flags & dnmx_type_dmp_full_ftable) for (auto* p = f.begin; p != f.end; ++p) { e.q(t.mixins[p->mixin_index]->name.to_std()); e.fp((char*)p->payload); e.n((int64_t)p->data->bid); e.n((int64_t)p->data->priority); }
        }
    }
    if (tr && (flags & dnmx_type_dmp_matching_queries)) { int n = 0; for (auto& r : reqs) n += r.t == &t; e.n(n); for (auto& r : reqs) if (r.t == &t) e_mixins(e, mspan(r.q)); }
    if (tr && (flags & dnmx_type_dmp_matching_type_classes)) for (auto* c : tcs) if (c->matches(&t)) e.w(c->name.to_std() == "klass1" ? "klass1" : "klass2");
}
static dnmx_error_return_t also_c(dnmx_type_mutation_handle h, uintptr_t ud) { // what contains a gets c
    auto* m = (const mixin_info*)ud; auto& v = type_mutation::from_c_handle(h)->mixins; bool a = false, c = false;
    for (auto* p : v) { a |= p == m; c |= p == m + 2; }
    if (a && !c) v.push_back(m + 2);
    return 0;
}
static int pl[8];
struct world {
    checked_resource mem; domain d; mixin_info m[4]; feature_info f[3] = {feat("f"), feat("g", true, pl), feat("h")}; feature_for_mixin ff[4][2] = {}; type_class tc[3]; mutation_rule_info r[2]; std::vector<req> asked; std::unique_ptr<object> o;
    std::vector<const type*> types; std::vector<const type_class*> tcs; uint32_t gaps, refs[2];
    static domain_settings settings() { domain_settings s = {}; s.canonicalize_types = false; s.allow_duplicate_feature_names = vx_bool("duplicate features"); s.allow_duplicate_mixin_names = vx_bool("duplicate mixins"); return s; }
    world(bool own, bool ctx) : d("dom", settings(), vx_u64("user data"), ctx ? pl : nullptr, own ? allocator(&mem) : allocator()) {
        static const char* nm[] = {"a", "b", "c", "d"};
        for (int i = 0; i < 4; ++i) {
            m[i] = plain(nm[i]); m[i].set_size_alignment(8 * (i + 1), 8);
            ff[i][0].info = &f[0]; ff[i][0].payload = pl + i; ff[i][1].info = &f[1]; ff[i][1].payload = pl + 4 + i; ff[i][0].bid = i % 2; ff[i][1].priority = i;
        }
        m[0].set_features({ff[0], 2}); m[1].set_features({ff[1], 1}); m[3].set_features({ff[3] + 1, 1}); m[2].dependency = true;
        gaps = PART == 2 && VX_TIER == 1 ? 2 * vx_pick(2, "gaps") : vx_pick(4, "gaps"); // 1: mixins, first; 2: features as well; 3: neither first
        if (gaps == 3) d.register_feature(f[0]);
        if (gaps >= 2) d.register_feature(f[2]);
        tc[0] = {dnmx_make_sv_str("klass1"), is1}; tc[1] = {dnmx_make_sv_str("klass2"), is2}; tc[2] = {dnmx_make_sv_str("gone"), is1};
        if (gaps == 3) d.register_mixin(m[0]);
        if (gaps) { d.register_type_class(tc[2]); d.register_mixin(m[3]); }
        d.register_type_class(tc[0]); for (int i = gaps == 3; i < 3; ++i) d.register_mixin(m[i]); d.register_type_class(tc[1]);
        if (gaps) { d.unregister_type_class(tc[2]); d.unregister_mixin(m[3]); }
        if (gaps >= 2) d.unregister_feature(f[2]);
        tcs = {&tc[0], &tc[1]};
        r[0] = rule("r1", also_c, 0, (uintptr_t)m); r[1] = rule("r2", [](dnmx_type_mutation_handle, uintptr_t) -> dnmx_error_return_t { return 0; }, 1);
        uint32_t rr = vx_pick(PART == 2 && VX_TIER == 1 ? 2 : 6, "references"); refs[0] = rr == 1 ? 2 : rr % 3; refs[1] = rr == 1 ? 1 : rr / 3; for (int i = 0; i < 2; ++i) { for (uint32_t k = 0; k < refs[i]; ++k) d.add_mutation_rule(r[i]); }
    }
    void ask(list q) {
        const type& t = d.get_type(mspan(q)); list full(t.mixins.begin(), t.mixins.end());
        for (auto& l : {q, full}) { bool old = false; for (auto& x : asked) old |= x.q == l; if (!old) asked.push_back({l, &t}); }
        for (auto* x : types) if (x == &t) return; types.push_back(&t);
    }
    // what is stored, in the order in which it is shown
    void order() {
        std::vector<req> as; std::vector<const type*> ts; domain_traverse tr(d);
        tr.traverse_types([&](const type& t) { ts.push_back(&t); });
        tr.traverse_type_queries([&](mspan q, const type& t) { as.push_back({list(q.begin(), q.end()), &t}); });
        for (auto* t : types) { if (t->num_mixins() == 0) continue; int n = 0; for (auto* x : ts) n += x == t; vx_check(n == 1, "each type is visited once"); }
        for (size_t i = 0; i < ts.size(); ++i) { bool known = false; for (auto* x : types) known |= x == ts[i]; vx_check(known || ts[i] == &d.get_empty_type(), "only types are visited"); for (size_t j = 0; j < i; ++j) vx_check(ts[i] != ts[j], "no type is visited twice"); }
        for (auto& r : as) { bool ok = false; for (auto& x : asked) ok |= x.q == r.q && x.t == r.t; vx_check(ok, "a visited request was made and had the result which is visited"); for (auto& x : as) vx_check(&x == &r || x.q != r.q, "no request is visited twice"); }
        types = ts; asked = as;
    }
    void walks() {
        size_t nt, nq;
        {
            domain_traverse tr(d); std::vector<const void*> v;
            tr.traverse_mixins([&](const mixin_info& x) { v.push_back(&x); }); vx_check(v.size() == 3 && v[0] == &m[0] && v[1] == &m[1] && v[2] == &m[2], "every registered mixin is visited once, in order of ids"); v.clear();
            tr.traverse_features([&](const feature_info& x) { v.push_back(&x); }); uint32_t id = 0; bool up = true; for (auto* x : v) { up &= ((const feature_info*)x)->id.i >= id; id = ((const feature_info*)x)->id.i; }
            vx_check(up && v.size() == 2 && v[0] != v[1] && (v[0] == &f[0] || v[0] == &f[1]) && (v[1] == &f[0] || v[1] == &f[1]), "every registered feature is visited once, in order of ids"); v.clear();
            tr.traverse_type_classes([&](const type_class& x) { v.push_back(&x); }); vx_check(v.size() == 2 && ((v[0] == &tc[0] && v[1] == &tc[1]) || (gaps && v[0] == &tc[1] && v[1] == &tc[0])), "every registered type class is visited once"); tcs.clear(); for (auto* x : v) tcs.push_back((const type_class*)x); v.clear();
            uint32_t got[2] = {0, 0}; tr.traverse_mutation_rules([&](const mutation_rule_info& x, uint32_t n) { vx_check(&x == &r[0] || &x == &r[1], "rules are visited"); vx_check(!got[&x - r], "no rule is visited twice"); got[&x - r] = n; v.push_back(&x); });
            vx_check(got[0] == refs[0] && got[1] == refs[1], "active rules are visited with how often they were added"); vx_check(v.size() < 2 || v[0] == &r[0], "rules are visited in their order");
            nt = nq = 0; tr.traverse_types([&](const type&) { ++nt; }); tr.traverse_type_queries([&](mspan, const type&) { ++nq; });
        }
        vx_check(d.num_types() == nt && d.num_type_queries() == nq && d.num_mutation_rules() == (refs[0] > 0) + (refs[1] > 0), "what is visited is what is counted");
    }
    void usable() { size_t n = d.num_mutation_rules(); mutation_rule_info x = rule("x", also_c, 5, (uintptr_t)m); d.add_mutation_rule(x); vx_check(d.num_mutation_rules() == n + 1, "the domain can be changed after a dump"); d.remove_mutation_rule(x); mixin_info y = plain("y"); d.register_mixin(y); d.unregister_mixin(y); }
};
static dnmx_error_return_t ini(const mixin_info*, void*) { return 0; }
static dnmx_error_return_t cpy(const mixin_info*, void*, const void*) { return 0; }
static void mov(const mixin_info*, void*, void*) noexcept {}
static void des(const mixin_info*, void*) noexcept {}
static bool eq(const mixin_info*, const void*, const void*) noexcept { return true; }
static int cmp(const mixin_info*, const void*, const void*) noexcept { return 0; }
extern "C" void vx_main() {
    expect e;
#if PART == 1 // infos with any values
    uint32_t what = vx_pick(4, "what"); std::ostream o;
    if (what == 0) {
        mixin_info m = plain("m"); domain d("dom"); feature_info f[2] = {feat("f"), feat("g")}; feature_for_mixin ff[2] = {};
        for (int i = 0; i < 2; ++i) { ff[i].info = &f[i]; ff[i].bid = vx_i32("bid"); ff[i].priority = vx_i32("priority"); ff[i].payload = i ? nullptr : pl; }
        uint32_t nf = vx_pick(3, "features"), miss = vx_pick(11, "missing"); m.set_features({ff, nf}); if (!nf) m.features = nullptr;
        m.size = vx_u32("size"); m.alignment = vx_u32("alignment"); m.obj_buf_size = vx_u32("obj_buf_size"); m.obj_buf_alignment_and_mixin_offset = vx_u32("offset");
        m.init = ini; m.copy_init = cpy; m.copy_asgn = cpy; m.move_init = mov; m.move_asgn = mov; m.destroy = des; m.equals = eq; m.compare = cmp; m.allocator = nullptr;
        switch (miss) { case 1: m.init = nullptr; break; case 2: m.copy_init = nullptr; break; case 3: m.copy_asgn = nullptr; break; case 4: m.move_init = nullptr; break; case 5: m.move_asgn = nullptr; break; case 6: m.destroy = nullptr; break; case 7: m.equals = nullptr; break; case 8: m.compare = nullptr; break; case 9: m.allocator = (dnmx_mixin_allocator_handle)pl; break; case 10: m.init = nullptr; m.move_asgn = nullptr; m.compare = nullptr; }
        m.mixin_class = vx_u64("class"); m.type_info_class = vx_u64("type_info_class"); m.user_data = vx_u64("user_data"); m.order_priority = vx_i32("order_priority"); m.force_external = vx_flag("force_external"); m.dependency = vx_flag("dependency");
        bool reg = vx_flag("registered"); if (reg) d.register_mixin(m);
        uint32_t flags = vx_u32("flags"); mixin_info was = m;
        util::dbg_dmp(o, m, flags); e_mixin(e, m, flags, "dom"); e.is(o);
        vx_check(!memcmp(&was, &m, sizeof m), "a dump changes nothing");
        if (reg) d.unregister_mixin(m);
    } else if (what == 1) {
        feature_info f = feat("f", vx_bool("clashes"), vx_flag("default") ? pl : nullptr); f.feature_class = vx_u64("class"); domain d("dom"); bool reg = vx_flag("registered"); if (reg) d.register_feature(f);
        util::dbg_dmp(o, f, vx_u32("flags")); e_feature(e, f); e.is(o); if (reg) d.unregister_feature(f);
    } else if (what == 2) {
        mutation_rule_info r = rule("r", vx_flag("function") ? also_c : nullptr, vx_i32("priority"), vx_u64("user data")); util::dbg_dmp(o, r, vx_u32("flags")); e_rule(e, r); e.is(o);
    } else {
        type_class c = {dnmx_make_sv_str("c"), vx_flag("function") ? is1 : nullptr}; util::dbg_dmp(o, c, vx_u32("flags")); e.q("c"); e.fp(c.matches); e.is(o);
    }
#elif PART == 2 // types and objects
    world w(false, true); uint32_t n = 1 + vx_pick(VX_TIER == 2 ? 3 : 2, "requests");
    for (uint32_t i = 0; i < n; ++i) { list q; uint32_t k = vx_pick(5, "request"); if (k) q.push_back(w.m + (k % 2)); if (k > 2) q.push_back(w.m + (1 - k % 2)); w.ask(q); }
    const type* t = w.types[0]; bool obj = vx_flag("object"); if (obj) w.o = std::make_unique<object>(*t);
    w.walks(); w.order();
    std::ostream o; uint32_t flags = 0; static const uint32_t bit[] = {dnmx_type_dmp_ex, dnmx_type_dmp_ftable, dnmx_type_dmp_full_ftable, dnmx_type_dmp_matching_type_classes, dnmx_type_dmp_matching_queries};
    for (uint32_t b : bit) if (vx_flag("flag")) flags |= b; size_t count = t->num_objects();
    util::dbg_dmp(o, *t, flags); bool tr = true; e_type(e, *t, flags, w.asked, w.tcs, tr); e.is(o);
    if (obj) { std::ostream p; util::dbg_dmp(p, *w.o); toks x = parse(p); bool names = true; size_t at = 0; for (auto* mm : t->mixins) { while (at < x.size() && !(x[at].k == Q && x[at].s == mm->name.to_std())) ++at; names &= at < x.size(); ++at; } vx_check(names, "the dump of an object names its mixins"); }
    vx_check(t->num_objects() == count, "a dump makes no object"); w.usable(); w.o.reset();
#else // domains
    world w(vx_flag("own allocator"), vx_flag("context")); w.ask({w.m}); if (vx_flag("more")) { w.ask({w.m + 1, w.m}); w.ask({}); }
    w.walks(); w.order(); std::ostream o;
    uint32_t own = vx_pick(7 + 2, "section"), flags = own < 7 ? 1u << own : own == 7 ? 0 : dnmx_dom_dmp_all; if (VX_TIER == 2 || own == 8) for (uint32_t b : {0x100u, 0x200u, 0x1000u, 0x2000u, 0x4000u, 0x8000u, 0x10000u, 0x100000u}) { if (VX_TIER == 2 && vx_flag("detail")) flags |= b; }
    bool detail = VX_TIER == 2 ? false : vx_flag("details"); if (detail) flags |= 0xFFFFFF00;
    util::dbg_dmp(o, w.d, flags);
    e.q("dom"); e.p(&w.d); e.n(w.d.user_data, "ud: "); if (w.d.context) e.p(w.d.context, "ctx : "); else e.w("<null>"); if (!(w.d.get_allocator() == allocator())) { e.w("mr"); e.p(w.d.get_allocator().resource()); }
    auto& s = w.d.settings();
    if (flags & dnmx_dom_dmp_settings) { e.b(s.canonicalize_types, "canonicalize_types: "); e.b(s.allow_duplicate_feature_names, "allow_duplicate_feature_names: "); e.b(s.allow_duplicate_mixin_names, "allow_duplicate_mixin_names: "); }
    if (flags & dnmx_dom_dmp_features) { e.n(2); uint32_t next = 0; const feature_info* fs[2] = {&w.f[0], &w.f[1]}; if (fs[1]->id.i < fs[0]->id.i) std::swap(fs[0], fs[1]); for (auto* f : fs) { if (f->id.i != next) e.n(f->id.i - next); e_feature(e, *f); next = f->id.i + 1; } }
    if (flags & dnmx_dom_dmp_mixins) { e.n(3); uint32_t next = 0; for (int i = 0; i < 3; ++i) { auto& m = w.m[i]; if (m.id.i != next) e.n(m.id.i - next); e_mixin(e, m, flags, "dom"); next = m.id.i + 1; } }
    if (flags & dnmx_dom_dmp_mutation_rules) { e.n((w.refs[0] > 0) + (w.refs[1] > 0)); for (int i = 0; i < 2; ++i) if (w.refs[i]) { e_rule(e, w.r[i]); e.n(w.refs[i]); } }
    if (flags & dnmx_dom_dmp_types) { e.n(w.types.size()); for (auto* t : w.types) e_type(e, *t, flags, w.asked, w.tcs, true); }
    if (flags & dnmx_dom_dmp_type_classes) { e.n(2); for (auto* c : w.tcs) { e.e.push_back({Q, std::string(c->name.to_std()), 0, {}}); e.fp(c->matches, "match: "); if (flags & dnmx_tc_dmp_matching_types) for (auto* t : w.types) if (c->matches(t)) e_type_head(e, *t); } }
    if (flags & dnmx_dom_dmp_type_queries) { e.n(w.asked.size()); for (auto& r : w.asked) { e_mixins(e, mspan(r.q)); e_mixins(e, r.t->mixins); } }
    e.is(o); w.usable();
#endif
    vx_reach("end");
}
