// C09: builders; PART 1: mixin infos, 2: features, settings, perks, 3: registration together with rules
#include "lib.hpp"
#include <dynamix/declare_mixin.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/feature_info_data.hpp>
#include <dynamix/common_mutation_rules.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <cstring>
using namespace dynamix::util; using namespace dynamix::util::builder_literals;
static bool is(dnmx_sv v, const char* s, size_t n) { if ((size_t)(v.end - v.begin) != n) return false; bool r = true; for (size_t i = 0; i < n; ++i) r &= v.begin[i] == s[i]; return r; }
static dnmx_error_return_t r0(dnmx_type_mutation_handle, uintptr_t) { return 0; }
static dnmx_error_return_t r1(dnmx_type_mutation_handle, uintptr_t) { return 1; }
struct T { int64_t x[3]; T() {} }; struct U {}; DYNAMIX_DECLARE_MIXIN(T); DYNAMIX_DECLARE_MIXIN(U);
static mixin_info_data *dt, *du; const mixin_info& _dynamix_get_mixin_info(const T*) { return dt->info; } const mixin_info& _dynamix_get_mixin_info(const U*) { return du->info; }
struct alloc_t : mixin_allocator { int tag = 5; byte_t* alloc_mixin_buf(const mixin_info&) override { return nullptr; } void dealloc_mixin_buf(byte_t*, const mixin_info&) noexcept override {} };
// any perks, and what they say
struct said { bool hb, hp; int32_t b, p; };
static builder_perks perks(said& s) {
    s = {}; int32_t b = vx_i32("bid"), p = vx_i32("priority"); builder_perks r;
    switch (vx_pick(6, "perks")) {
    case 0: break; case 1: r = feature_bid(b); s = {true, false, b, 0}; break; case 2: r = order_priority(p); s = {false, true, 0, p}; break; case 3: r = feature_bid_priority(b, p); s = {true, true, b, p}; break;
    case 4: vx_assume(b != INT32_MIN && p != INT32_MIN); r = -feature_bid_priority(b, p); s = {true, true, -b, -p}; break; default: r = -7_bid; s = {true, false, -7, 0}; }
    return r;
}
static int32_t first_bid(const said& a, const said& b) { return a.hb ? a.b : b.hb ? b.b : 0; }
static int32_t first_prio(const said& a, const said& b) { return a.hp ? a.p : b.hp ? b.p : 0; }
#if PART == 1
struct want { const char* name; size_t len; uintptr_t ud; bool dep; void* alloc; bool own_alloc; struct f { const feature_info* i; const void* p; uint64_t v; bool byval; int32_t b, o; }; std::vector<f> fs; struct r { const mutation_rule_info* ext; std::string name; void* fn; uintptr_t ud; int32_t prio; }; std::vector<r> rs; };
template <class M> static void agree(const mixin_info_data& d, const want& w, const mixin_info& base) {
    const mixin_info& i = d.info;
    vx_check(is(i.name, w.name, w.len), "the name is the last one given"); vx_check(i.user_data == w.ud, "so is the user data"); vx_check(i.dependency == w.dep, "a dependency if asked for, or for its rules");
    if (w.own_alloc) vx_check(i.allocator && i.allocator == d.stored_alloc->to_c_hanlde() && ((alloc_t*)d.stored_alloc.get())->tag == 5, "an allocator of its own"); else vx_check(i.allocator == w.alloc, "the allocator is the one given");
    vx_check(i.size == base.size && i.alignment == base.alignment && i.obj_buf_size == base.obj_buf_size && i.init == base.init && i.destroy == base.destroy && i.copy_init == base.copy_init && i.move_init == base.move_init && i.copy_asgn == base.copy_asgn && i.move_asgn == base.move_asgn && i.equals == base.equals && i.compare == base.compare, "the rest is what the type of the mixin gives");
    vx_check(i.force_external == base.force_external && i.order_priority == base.order_priority && i.id == invalid_mixin_id && !i.dom, "and defaults");
    auto fs = i.features_span(); vx_check(fs.size() == w.fs.size(), "as many features as given");
    for (size_t k = 0; k < w.fs.size(); ++k) { auto& x = w.fs[k]; vx_check(fs[k].info == x.i && fs[k].bid == x.b && fs[k].priority == x.o, "features in order with their bids and priorities"); if (x.byval) vx_check(fs[k].payload && *(const uint64_t*)fs[k].payload == x.v, "a payload given by value is kept"); else vx_check(fs[k].payload == x.p, "a payload is the one given"); }
    vx_check(d.mutation_rule_infos.size() == w.rs.size(), "as many rules as given");
    for (size_t k = 0; k < w.rs.size(); ++k) { auto& x = w.rs[k]; auto* r = d.mutation_rule_infos[k]; if (x.ext) vx_check(r == x.ext, "a rule is the one given"); else { vx_check(is(r->name, x.name.data(), x.name.size()), "the name of a rule"); vx_check((!x.fn || (void*)r->apply == x.fn) && r->user_data == x.ud && r->order_priority == x.prio, "a rule is made of what was given"); } }
}
extern "C" void vx_main() {
    static feature_info f[2] = {feat("f"), feat("g")}; static uint64_t pay; checked_resource mem; mixin_info base = dnmx_make_mixin_info(); common_init_mixin_info<T>(base); bool counted = vx_flag("allocator"); // before anything allocates from it
    { mixin_info_data data{counted ? allocator(&mem) : allocator()}; dt = &data; mixin_info_data other; du = &other; alloc_t al; mutation_rule_info ext = rule("ext", r0); char buf[32]; memset(buf, 'q', sizeof buf); want w = {"start", 5, 0, false, nullptr, false, {}, {}};
    mixin_info_data_builder<T> b(data, std::string_view("start")); vx_check(&b.get_data() == &data, "a builder builds its data"); agree<T>(data, w, base); char kept[2][32]; int nk = 0;
    for (int st = 0; st < (VX_TIER == 2 ? 3 : 2); ++st) {
        said p1, p2;
        switch (vx_pick(13, "call")) {
        case 0: b.name("other"); w.name = "other"; w.len = 5; break;
        case 1: { size_t n = vx_flag("long") ? 20 : 3; vx_bytes(buf, 3, "name"); b.store_name(std::string_view(buf, n)); memcpy(kept[nk], buf, n); w.name = kept[nk++]; w.len = n; memset(buf, 'x', sizeof buf); vx_reach("stored"); break; } // the caller's buffer may change
        case 2: w.ud = (uintptr_t)vx_u64("user data"); b.user_data(w.ud); break;
        case 3: w.dep = vx_bool("dependency"); b.dependency(w.dep); break;
        case 4: b.dependency(); w.dep = true; break;
        case 5: { auto a = perks(p1); int k = (int)vx_pick(2, "feature"); b.implements_by(f[k], pay, a); w.fs.push_back({&f[k], &pay, 0, false, first_bid(p1, {}), first_prio(p1, {})}); break; }
        case 6: { auto a = perks(p1), c = perks(p2); uint64_t v = vx_u64("payload"), t = v; b.implements_with(f[0], t, a, c); t = 1; w.fs.push_back({&f[0], nullptr, v, true, first_bid(p1, p2), first_prio(p1, p2)}); break; }
        case 7: { auto a = perks(p1); b.implements_with_payload(f[1], fwd_any(pay), a); w.fs.push_back({&f[1], &pay, 0, false, first_bid(p1, {}), first_prio(p1, {})}); break; }
        case 8: if (vx_flag("own")) { b.uses_allocator<alloc_t>(); w.own_alloc = true; } else { b.uses_allocator(al); w.own_alloc = false; w.alloc = al.to_c_hanlde(); } break;
        case 9: b.adds_mutation_rule(ext); w.rs.push_back({&ext}); w.dep = true; break;
        case 10: { auto a = perks(p1); uintptr_t ud = vx_u64("rule data"); b.adds_mutation_rule("named rule", r1, ud, a); w.rs.push_back({nullptr, "named rule", (void*)r1, ud, first_prio(p1, {})}); w.dep = true; break; }
        case 11: { std::string n(w.name, w.len); n += " rule "; n += std::to_string(w.rs.size()); uintptr_t ud = vx_u64("rule data"); b.adds_mutation_rule(r0, ud); w.rs.push_back({nullptr, n, (void*)r0, ud, 0}); w.dep = true; break; }
        default: { auto a = perks(p1); bool att = vx_flag("attaches"); uintptr_t ud = vx_u64("rule data"); size_t at = w.rs.size(); if (att) b.on_mutation(attaches_to<U>(), a, ud); else b.on_mutation(also_adds<U>(), a, ud);
            std::string n(w.name, w.len); n += att ? " attaches_to<" : " also_adds<"; n += std::to_string(at); n += ">"; w.rs.push_back({nullptr, n, nullptr, ud, first_prio(p1, {})}); w.dep |= att; break; }
        }
        agree<T>(data, w, base);
    } }
    vx_reach("end");
}
#elif PART == 2
extern "C" void vx_main() {
    static uint64_t pay;
    switch (vx_pick(4, "what")) {
    case 0: { feature_info_data d; feature_info_data_builder b(d, std::string_view("start")); const char* name = "start"; size_t len = 5; const void* p = nullptr; bool val = false; uint64_t v = 0; char buf[32], kept[3][32]; memset(buf, 'z', sizeof buf);
        for (int st = 0; st < 3; ++st) {
            switch (vx_pick(5, "call")) {
            case 0: b.name("other"); name = "other"; len = 5; break;
            case 1: { size_t n = vx_flag("long") ? 20 : 3; vx_bytes(buf, 3, "name"); b.store_name(std::string_view(buf, n)); memcpy(kept[st], buf, n); name = kept[st]; len = n; memset(buf, 'x', sizeof buf); break; }
            case 2: b.default_payload(fwd_any(pay)); p = &pay; val = false; break; case 3: b.default_payload_by(pay); p = &pay; val = false; break;
            default: { v = vx_u64("payload"); uint64_t t = v; b.default_payload_with(t); t = 0; val = true; } }
            vx_check(&b.get_data() == &d && is(d.info.name, name, len), "the name of a feature is the last one given"); if (val) vx_check(d.info.default_payload && *(uint64_t*)d.info.default_payload == v, "a default given by value is kept"); else vx_check(d.info.default_payload == p, "the default is the one given");
            vx_check(!d.info.allow_clashes && d.info.id == invalid_feature_id, "defaults elsewhere");
        } break; }
    case 1: { bool c = vx_bool("clash"); uintptr_t p = vx_u64("default"); common_feature_info f(dnmx_make_sv_str("n"), c, (dnmx_feature_payload)p); vx_check(is(f.name, "n", 1) && f.allow_clashes == c && (uintptr_t)f.default_payload == p && f.id == invalid_feature_id, "a feature of what was given");
        common_feature_info e; vx_check(is(e.name, "", 0) && !e.allow_clashes && !e.default_payload && e.id == invalid_feature_id, "an empty feature"); break; }
    case 2: { domain_settings_builder b; domain_settings w = {}; for (int st = 0; st < 3; ++st) { bool v = vx_bool("value"); uint32_t k = vx_pick(6, "call");
            switch (k) { case 0: b.canonicalize_types(v); w.canonicalize_types = v; break; case 1: b.allow_duplicate_feature_names(v); w.allow_duplicate_feature_names = v; break; case 2: b.allow_duplicate_mixin_names(v); w.allow_duplicate_mixin_names = v; break;
            case 3: b.canonicalize_types(); w.canonicalize_types = true; break; case 4: b.allow_duplicate_feature_names(); w.allow_duplicate_feature_names = true; break; default: b.allow_duplicate_mixin_names(); w.allow_duplicate_mixin_names = true; }
            domain_settings s = b; vx_check(s.canonicalize_types == w.canonicalize_types && s.allow_duplicate_feature_names == w.allow_duplicate_feature_names && s.allow_duplicate_mixin_names == w.allow_duplicate_mixin_names, "settings are those asked for"); } 
        domain d("d", b); auto& s = d.settings(); vx_check(s.canonicalize_types == w.canonicalize_types && s.allow_duplicate_feature_names == w.allow_duplicate_feature_names && s.allow_duplicate_mixin_names == w.allow_duplicate_mixin_names, "so are the domain's"); break; }
    default: { said s; auto p = perks(s); vx_check((bool)p.bid == s.hb && (bool)p.priority == s.hp && (!s.hb || *p.bid == s.b) && (!s.hp || *p.priority == s.p), "perks say what was asked"); auto q = 9_prio; vx_check(!q.bid && q.priority == 9, "priority literals"); auto z = 3_bid; vx_check(z.bid == 3 && !z.priority, "bid literals"); } }
    vx_reach("end");
}
#else
static int applied[2];
static dnmx_error_return_t count(dnmx_type_mutation_handle, uintptr_t k) { ++applied[k]; return 0; }
static dnmx_error_return_t adds(dnmx_type_mutation_handle h, uintptr_t p) { auto& m = *type_mutation::from_c_handle(h); if (!m.mixins.empty()) m.add_if_lacking(*(const mixin_info*)p); return 0; }
extern "C" void vx_main() {
    checked_resource mem; domain dom("d", {}, 0, nullptr, allocator(&mem)); mixin_info a = plain("a"); dom.register_mixin(a); mutation_rule_info ext = rule("ext", count, 0, 0); bool shared = vx_flag("shared"); if (shared) dom.add_mutation_rule(ext); // someone else may have added it already
    mixin_info_data d; mixin_info_data_builder<T> b(d, std::string_view(vx_flag("clash") ? "a" : "t")); int order = (int)vx_pick(3, "rules"); if (order) b.adds_mutation_rule(ext); if (order == 2) b.adds_mutation_rule("adder", adds, (uintptr_t)&d.info); bool bad = vx_flag("bad rule"); if (bad) b.adds_mutation_rule("bad", nullptr); if (vx_flag("no dependency")) b.dependency(false);
    auto rules = [&](int n, bool adder) { applied[0] = 0; type_mutation m(dom); m.add(a); dom.garbage_collect_types(); mutation_rule_info tmp = rule("tmp", count, 0, 1); dom.add_mutation_rule(tmp); const type& t = dom.get_type(std::move(m)); dom.remove_mutation_rule(tmp); vx_check((applied[0] > 0) == (n > 0), "exactly the rules of the registered are in force"); vx_check(t.has("t") == adder, "and do their work"); };
    bool taken = is(d.info.name, "a", 1); int k = (int)vx_pick(10, "failing allocation") - 1; mem.failed = false; mem.fail_at = k; thrown e = tries([&] { d.register_in(dom); }); mem.fail_at = -1; bool ok = !taken && !bad && !mem.failed;
    vx_check(ok ? e == T_none : e == (mem.failed ? T_alloc : T_domain), "registration works if it can");
    vx_check(ok ? d.info.dom == dom.to_c_hanlde() && dom.get_mixin_info("t") == &d.info : !d.info.dom && d.info.id == invalid_mixin_id && !dom.get_mixin_info("t"), "the mixin is there exactly if it worked"); rules(shared || (ok && order), ok && order == 2);
    if (ok) {
        if (vx_flag("twice")) { vx_check(tries([&] { d.register_in(dom); }) == T_domain, "what is registered cannot be again"); rules(shared || order, order == 2); vx_reach("twice"); }
        dom.garbage_collect_types(); d.unregister_from(dom); vx_check(!d.info.dom && !dom.get_mixin_info("t"), "unregistering takes the mixin"); rules(shared, false); d.register_in(dom); rules(shared || order, order == 2); d.unregister_from(dom); rules(shared, false); vx_reach("registered");
    } else vx_reach("failed");
    if (mem.failed) vx_reach("no memory"); if (shared) { dom.remove_mutation_rule(ext); rules(0, false); }
    vx_reach("end");
}
#endif
