// C43: what fails throws an exception of the right class, whose message names the domain and what it is about
#include "lib.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/msg/define_msg.hpp>
#include <dynamix/msg/next_impl.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
#include <dynamix/type_class.hpp>
#include <dnmx/mutate.h>
#define N 3
class tobj : public object { public: using object::object; };
struct X { int64_t v; }; DYNAMIX_DECLARE_MIXIN(X);
static const mixin_info* minfo; const mixin_info& _dynamix_get_mixin_info(const X*) { return *minfo; }
DYNAMIX_DECLARE_SIMPLE_MSG(ping, int(tobj&)); DYNAMIX_DEFINE_SIMPLE_MSG(ping, unicast); static int call_ping(void*) { return 1; }
static std::string text; 
enum cls { C_none, C_domain, C_type, C_object, C_feature, C_bare, C_foreign };
template <class F> static cls run(F&& f) {
    text.clear();
    try { f(); return C_none; }
    catch (const dynamix::exception& e) {
        text = e.what(); const std::runtime_error& r = e; vx_check(text == r.what(), "an error is a runtime_error");
        try { throw; } catch (const domain_error&) { return C_domain; } catch (const type_error&) { return C_type; } catch (const object_error&) { return C_object; } catch (const feature_error&) { return C_feature; } catch (const dynamix::exception&) { return C_bare; }
    }
    catch (const user_exc&) { return C_foreign; }
}
static size_t at;
static bool begins(size_t p, std::string_view s) { if (text.size() < p + s.size()) return false; bool eq = true; for (size_t i = 0; i < s.size(); ++i) eq &= text[p + i] == s[i]; return eq; }
static void starts(std::string_view d) { bool ok = begins(0, d); vx_check(ok, "a message begins with the name of the domain"); at = d.size(); }
static void has(std::string_view s) { bool any = false; for (size_t p = 0; p + s.size() <= text.size(); ++p) any |= begins(p, s); vx_check(any, "a message shows what it is about"); }
static std::string quoted(const dnmx_sv& n) { return "'" + std::string(n.begin, dnmx_sv_len(n)) + "'"; }
template <class I> static void names(const I& i) { has(quoted(i.name)); }
static std::string num(int64_t v) { char b[24]; int n = 0; bool neg = v < 0; uint64_t u = neg ? -(uint64_t)v : (uint64_t)v; std::string r; do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u); if (neg) r += '-'; while (n) r += b[--n]; return r; }
static void listed(const list& l) { // shows the list; what else it shows is looked for outside of that
    std::string s = "{"; for (size_t i = 0; i < l.size(); ++i) { if (i) s += ", "; s += quoted(l[i]->name); } s += "}"; has(s);
    for (size_t p = 0; p + s.size() <= text.size(); ++p) if (begins(p, s)) { text.erase(p, s.size()); break; } }
static dnmx_error_return_t rule_err; static int rule_what;
static dnmx_error_return_t the_rule(dnmx_type_mutation_handle h, uintptr_t ud) {
    auto& v = type_mutation::from_c_handle(h)->mixins; auto* m = (const mixin_info*)ud;
    if (rule_what == 1) return rule_err; if (rule_what == 2) throw user_exc{1};
    if (rule_what == 3) { if (v.size() && v.back() == m) v.pop_back(); else v.push_back(m); }
    return 0;
}
static dnmx_error_return_t fn_err; static int fn_what, fn_who = -1;
static dnmx_error_return_t failing(const dnmx_mixin_info* i) { if ((int)i->user_data != fn_who) return 0; if (fn_what == 2) throw user_exc{2}; return fn_err; }
static dnmx_error_return_t f_init(const dnmx_mixin_info* i, void* p) { *(int64_t*)p = 0; return failing(i); }
static dnmx_error_return_t f_copy(const dnmx_mixin_info* i, void* p, const void* s) { *(int64_t*)p = *(const int64_t*)s; return failing(i); }
static void f_move(const dnmx_mixin_info*, void* p, void* s) noexcept { *(int64_t*)p = *(int64_t*)s; }
static int f_cmp(const dnmx_mixin_info*, const void* a, const void* b) noexcept { return 0; }
static bool yes(dnmx_type_handle) noexcept { return true; }
static list pick_list(const mixin_info* m, uint32_t maxn, const char* what) { list r; uint32_t n = vx_pick(maxn + 1, what), c[4]; for (uint32_t i = 0; i < n; ++i) { c[i] = vx_pick(N, what); for (uint32_t j = 0; j < i; ++j) vx_assume(c[j] != c[i]); r.push_back(m + c[i]); } return r; }
extern "C" void vx_main() {
    char dn[4] = "dA", nm[N][4] = {"a1", "b2", "c3"}, fnm[3][4] = {"f1", "g2", "h3"}; bool unnamed = vx_flag("unnamed");
    auto letter = [](const char* w) { uint8_t c = vx_u8(w); vx_assume(c >= 'a' && c <= 'z'); return (char)c; };
    dn[1] = letter("domain"); nm[vx_pick(2, "letter")][1] = letter("mixin"); fnm[0][1] = letter("feature");
    domain_settings set = {}; set.canonicalize_types = false; domain dom(unnamed ? std::string_view() : std::string_view(dn), set), other("other");
    std::string dname = unnamed ? "unnamed domain" : dn;
    mixin_info m[N], o = plain("oo"); feature_info f[2] = {feat(fnm[0]), feat(fnm[1])}; feature_for_mixin ff[N][2] = {};
    for (int i = 0; i < N; ++i) { m[i] = plain(nm[i]); m[i].set_size_alignment(8, 8); m[i].user_data = i; m[i].init = f_init; m[i].copy_init = m[i].copy_asgn = f_copy; m[i].move_init = m[i].move_asgn = f_move; m[i].compare = f_cmp; }
    uint32_t what = vx_pick(10, "what"); list req; cls c = C_none;
    auto is = [&](cls want) { vx_check(c == want, "a failure throws the class of error which belongs to it"); if (c == want && c != C_foreign) starts(dname); return c == want; };
#if PART == 1
    if (what == 0) { // registration
        auto all = [&](auto& reg, auto&& rig, auto& x, auto& y, auto bad, const char* kind, bool ids) { // x is good, y is another
            switch (vx_pick(6, "how")) {
            case 0: if (!ids) return; rig(x); c = run([&] { reg(x); }); if (is(C_domain)) { names(x); has(num(x.id.i)); } break;
            case 1: y.name = dnmx_make_sv_len("", 0); c = run([&] { rig(y); }); is(C_domain); break;
            case 2: y.name = x.name; rig(x); c = run([&] { rig(y); }); if (is(C_domain)) names(y); break;
            case 3: c = run([&] { bad(y); }); if (is(C_domain)) names(y); break;
            default: rig(x); c = run([&] { rig(y); }); vx_check(c == C_none, "what is in order is accepted"); return; }
            has(kind);
        };
        uint32_t k = vx_pick(3, "kind");
        if (k == 0) { auto r = [&](mixin_info& x) { dom.register_mixin(x); }; all(r, r, m[0], m[1], [&](mixin_info& x) { vx_flag("other") ? other.register_mixin(x), dom.unregister_mixin(x) : dom.unregister_mixin(x); }, "mixin", true); }
        else if (k == 1) { auto r = [&](feature_info& x) { dom.register_feature(x); }; all(r, r, f[0], f[1], [&](feature_info& x) { vx_flag("other") ? other.register_feature(x), dom.unregister_feature(x) : dom.unregister_feature(x); }, "feature", true); }
        else {
            type_class t[2] = {{dnmx_make_sv_str(nm[0]), yes}, {dnmx_make_sv_str(nm[1]), yes}};
            switch (vx_pick(4, "how")) {
            case 0: t[1].name = dnmx_make_sv_len("", 0); c = run([&] { dom.register_type_class(t[1]); }); if (is(C_domain)) has("class"); break;
            case 1: t[1].name = t[0].name; dom.register_type_class(t[0]); c = run([&] { dom.register_type_class(t[1]); }); if (is(C_domain)) names(t[0]); break;
            case 2: t[1].matches = nullptr; c = run([&] { dom.register_type_class(t[1]); }); if (is(C_domain)) names(t[1]); break;
            default: { mutation_rule_info r = rule(nm[2], nullptr); c = run([&] { dom.add_mutation_rule(r); }); if (is(C_domain)) { names(r); has("rule"); } } }
        }
        vx_reach("registration"); return;
    }
    if (what == 1) { // a mixin which says it is in another domain
        m[0].dom = other.to_c_hanlde(); c = run([&] { dom.register_mixin(m[0]); }); if (is(C_domain)) { names(m[0]); has("other"); } return;
    }
    // requests
    ff[0][0] = {&f[0], nullptr, 0, 0}; ff[1][0] = {&f[0], nullptr, 0, 0}; m[0].set_features({ff[0], 1}); m[1].set_features({ff[1], 1}); m[2].features = nullptr; m[2].num_features = 0;
    for (auto& x : m) dom.register_mixin(x);
    mutation_rule_info r = rule("ru", the_rule, 0, (uintptr_t)(m + 2)); bool asmut = vx_flag("as mutation"); list l = pick_list(m, 3, "request");
    auto ask = [&](list q) { req = q; if (asmut) { type_mutation t(dom); for (auto* x : q) t.add(*x); dom.get_type(std::move(t)); } else dom.get_type(q); };
    int a = -1, b = -1; for (size_t i = 0; i < l.size(); ++i) { if (l[i] == m) a = (int)i; if (l[i] == m + 1) b = (int)i; } bool clash = a >= 0 && b >= 0;
    if (what == 2) { c = run([&] { ask(l); }); if (!clash) vx_check(c == C_none, "what is in order is accepted"); else if (is(C_type)) { listed(l); names(f[0]); names(m[0]); names(m[1]); vx_reach("clash"); } }
    else if (what == 3) { l.push_back(&o); o.name = dnmx_make_sv_str("oo"); c = run([&] { ask(l); }); if (is(C_type)) { listed(l); names(o); } }
    else if (what == 4) { other.register_mixin(o); l.insert(l.begin(), &o); c = run([&] { ask(l); }); if (is(C_domain)) { listed(l); names(o); has("other"); } vx_reach("foreign"); }
    else if (what == 5) { l.push_back(m + 2); bool dup = l.size() > 1 && std::find(l.begin(), l.end() - 1, m + 2) != l.end() - 1; vx_assume(dup); c = run([&] { ask(l); }); if (is(C_type)) { listed(l); names(m[2]); } }
    else if (what == 6) { // rules
        rule_what = 1 + vx_pick(3, "rule"); rule_err = vx_pick(2, "code") ? -7 : 1234; dom.add_mutation_rule(r); c = run([&] { ask(l); });
        if (l.empty() && c == C_none) { vx_reach("empty"); return; }
        if (rule_what == 1) { if (is(C_type)) { names(r); listed(l); has(num(rule_err)); } vx_reach("rule"); } else if (rule_what == 2) is(C_foreign); else { is(C_type); vx_reach("cyclic"); }
        dom.remove_mutation_rule(r);
    } else if (what == 7) { type_mutation t(other); c = run([&] { dom.get_type(std::move(t)); }); if (is(C_domain)) has("other"); }
    else if (what == 8) { // edits by name
        type_mutation t(dom); for (auto* x : l) t.add(*x); uint32_t k = vx_pick(3, "edit"); bool missing = k != 1 ? true : b < 0;
        c = run([&] { if (k == 0) t.add("nope"); else if (k == 1) t.to_back(m[1]); else t.to_back("nope"); });
        if (!missing) vx_check(c == C_none, "what is there can be moved"); else if (is(C_type)) { listed(l); has(k == 1 ? quoted(m[1].name) : "'nope'"); }
    } else { vx_assume(!clash); const type& t = dom.get_type(l); c = run([&] { t.is_of("nope"); }); if (is(C_type)) { listed(l); has("'nope'"); } }
#else
    // objects
    if (what > 8) return;
    minfo = &m[0]; m[0].features = nullptr; for (auto& x : m) { x.features = nullptr; x.num_features = 0; }
    ff[2][0] = {&ping::info, (dnmx_feature_payload)call_ping, 0, 0}; m[2].set_features({ff[2], 1});
    int bad = vx_pick(N, "which"); mixin_info& x = m[bad]; for (auto& y : m) dom.register_mixin(y);
    list from = pick_list(m, 2, "source"), to = pick_list(m, 2, "target"); auto in = [&](const list& l) { return std::find(l.begin(), l.end(), &x) != l.end(); };
    bool inf = in(from), into = in(to); int64_t code = vx_flag("negative") ? -3 : 41;
    auto set_fn = [&] { fn_who = bad; fn_err = (dnmx_error_return_t)code; fn_what = 1 + vx_pick(2, "how"); };
    auto user = [&](const list& l) { if (fn_what == 2) is(C_foreign); else if (is(C_object)) { listed(l); names(x); has(num(code)); vx_reach("code"); } };
    {
        object so(dom.get_type(from)), to_(dom.get_type(to));
        switch (what) {
        case 0: { bool miss = vx_flag("missing"); if (miss) x.init = nullptr; else set_fn();
            c = run([&] { object n(dom.get_type(to)); }); if (!into) vx_check(c == C_none, "nothing fails"); else if (miss) { if (is(C_object)) { listed(to); names(x); } vx_reach("missing"); } else user(to); break; }
        case 1: { bool miss = vx_flag("missing"); if (miss) x.copy_init = nullptr; else set_fn();
            c = run([&] { object n = so.copy(); }); if (!inf) vx_check(c == C_none, "nothing fails"); else if (miss) { if (is(C_object)) { listed(from); names(x); } } else user(from); break; }
        case 2: { bool miss = vx_flag("missing"); if (miss) { x.copy_init = nullptr; x.copy_asgn = nullptr; } else set_fn();
            c = run([&] { to_.copy_from(so); }); if (!inf) vx_check(c == C_none, "nothing fails"); else if (miss) { if (is(C_object)) names(x); } else if (fn_what == 2) is(C_foreign); else if (is(C_object)) { names(x); has(num(code)); } break; }
        case 3: { bool miss = vx_flag("missing"), mv = vx_flag("move"); if (miss) { x.copy_asgn = nullptr; x.move_asgn = nullptr; } else { if (mv) break; set_fn(); }
            c = run([&] { mv ? to_.move_matching_from(so) : to_.copy_matching_from(so); }); if (!inf || !into) vx_check(c == C_none, "nothing fails"); else if (miss) { if (is(C_object)) { listed(to); names(x); } } else user(to); break; }
        case 4: { to_.seal(); uint32_t k = vx_pick(5, "change"); c = run([&] { if (k == 0) to_.clear(); else if (k == 1) to_.reset_type(dom.get_type(from)); else if (k == 2) to_.copy_from(so); else if (k == 3) to_ = std::move(so); else mutate_to(to_, dom.get_type(from)); });
            if (is(C_object)) listed(to); vx_reach("sealed"); break; }
        case 5: { x.compare = nullptr; object n(dom.get_type(to)); c = run([&] { n.compare(to_); }); if (!into) vx_check(c == C_none, "nothing fails"); else if (is(C_object)) { listed(to); names(x); } break; }
        case 6: { checked_resource mem; object n(dom.get_type(from), allocator(&mem)); c = run([&] { to_ = std::move(n); }); if (is(C_object)) listed(to); break; }
        case 7: { tobj p(dom.get_type(to)); bool has2 = std::find(to.begin(), to.end(), m + 2) != to.end(); vx_assume(!has2); c = run([&] { ping::call(p); });
            if (is(C_feature)) { listed(to); has(quoted(ping::info.name)); } vx_reach("message"); break; }
        default: { if (from.size() < 2) break; { object_mutation mut(to_, dom.get_type(from)); auto nop = [](update_common_args) {}; mut.update_at(1, util::default_init_new_func, nop); c = run([&] { mut.update_at(0, util::default_init_new_func, nop); }); }
            if (is(C_object)) listed(from); vx_reach("order"); }
        }
    }
#endif
    vx_reach("end");
}
