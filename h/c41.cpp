// C41: what a program sees of the v1 interface
#include "lib.hpp"
#include <dynamix/v1compat/core.hpp>
#include <dynamix/v1compat/combinators.hpp>
#include <dynamix/v1compat/next_bidder.hpp>
#include <dynamix/v1compat/type_class.hpp>
#include <dynamix/dm_this.hpp>
namespace v1 = dynamix::v1compat;
struct prov { bool on; int32_t bid, prio; };
enum kind { K_uni, K_unic, K_multi, K_cmulti, K_ov0, K_ov2, N_kinds };
static prov pv[N_kinds][3]; static int the_kind; static uint64_t ud[3]; static bool dep;
struct call_rec { int kind, who; const void* self; int a; const void* ref; };
static call_rec calls[16]; static int ncalls; static int ret[5];
static bool follow[3], nexted; static int next_has[3];
static int rec(int k, int who, const void* self, int a, const void* ref) { calls[ncalls++] = {k, who, self, a, ref}; return ret[who]; }
// before the definitions run
static const bool ready = [] {
    the_kind = PART == 1 ? vx_pick(N_kinds, "message") : 0;
    for (int k = 0; k < N_kinds; ++k) for (int i = 0; i < 3; ++i) {
        bool sym = PART == 2 || (PART == 1 && k == the_kind);
        pv[k][i] = {true, sym ? vx_i32("bid") : i, sym ? vx_i32("priority") : 0};
    }
    for (int i = 0; i < 3; ++i) ud[i] = PART == 2 ? vx_u64("user data") : i;
    dep = PART == 2 && vx_bool("dependency");
    for (auto& r : ret) r = vx_i32("result");
    return true;
}();
DYNAMIX_V1_DECLARE_MIXIN(ma); DYNAMIX_V1_DECLARE_MIXIN(mb); DYNAMIX_V1_DECLARE_MIXIN(mc);
DYNAMIX_V1_MESSAGE_2(int, uni, int, a, int&, r);
DYNAMIX_V1_CONST_MESSAGE_1(int, unic, int, a);
DYNAMIX_V1_MULTICAST_MESSAGE_2(int, multi, int, a, int&, r); DYNAMIX_V1_CREATE_COMBINATOR_CALL_2(int, multi, int, a, int&, r);
DYNAMIX_V1_CONST_MULTICAST_MESSAGE_1(int, cmulti, int, a); DYNAMIX_V1_CREATE_COMBINATOR_CALL_1(int, cmulti, int, a);
DYNAMIX_MAKE_FUNC_TRAITS(ov);
DYNAMIX_V1_CONST_MESSAGE_0_OVERLOAD(ov_0, int, ov);
DYNAMIX_V1_MULTICAST_MESSAGE_2_OVERLOAD(ov_2, int, ov, int, a, int&, r); DYNAMIX_V1_CREATE_COMBINATOR_CALL_2_OVERLOAD(ov_2, int, ov, int, a, int&, r);
DYNAMIX_V1_CONST_MESSAGE_1(int, deflt, int, a); // with a default, implemented by nobody
struct token { int v; bool gone = false; token(int v) : v(v) {} token(token&& o) noexcept : v(o.v), gone(o.gone) { o.gone = true; } token(const token&) = delete; };
DYNAMIX_V1_MESSAGE_0(int, ar0); DYNAMIX_V1_MESSAGE_3(int, ar3, int&&, x, token, y, const int&, z); DYNAMIX_V1_CONST_MESSAGE_4(int, ar4, int, x, int*, y, token&, z, const token&, w); DYNAMIX_V1_MESSAGE_5(int, ar5, int, x, int8_t, y, int64_t, z, bool, u, const char*, v);
#define BODY(I) \
    int64_t state = I; \
    int uni(int a, int& r) { int k = rec(K_uni, I, this, a, &r); if (follow[I]) { follow[I] = false; next_has[I] = DYNAMIX_V1_HAS_NEXT_BIDDER(uni_msg); return DYNAMIX_V1_CALL_NEXT_BIDDER(uni_msg, a, r); } return k; } \
    int unic(int a) const { return rec(K_unic, I, this, a, nullptr); } \
    int multi(int a, int& r) { int k = rec(K_multi, I, this, a, &r); if (follow[I]) { follow[I] = false; next_has[I] = DYNAMIX_V1_HAS_NEXT_BIDDER(multi_msg); return DYNAMIX_V1_CALL_NEXT_BIDDER(multi_msg, a, r); } return k; } \
    int cmulti(int a) const { return rec(K_cmulti, I, this, a, nullptr); } \
    int ov() const { return rec(K_ov0, I, this, 0, nullptr); } \
    int ov(int a, int& r) { return rec(K_ov2, I, this, a, &r); } \
    v1::object* me() { return dm_v1_this; } \
    const v1::object* me() const { return dm_v1_this; }
class ma { public: BODY(0) };
class mb { public: BODY(1) bool operator==(const mb& o) const { return state == o.state; } };
class mc { public: BODY(2) mc() = default; mc(mc&&) = default; mc& operator=(mc&&) = default; // cannot be copied
    int ar0() { return rec(100, 2, this, 0, nullptr); }
    int ar3(int&& x, token y, const int& z) { vx_check(!y.gone, "a moved argument arrives whole"); return rec(103, 2, this, y.v, &x) + (&z != &x); }
    int ar4(int x, int* y, token& z, const token& w) const { return rec(104, 2, this, x + z.v, y) + (&z == &w); }
    int ar5(int x, int8_t y, int64_t z, bool u, const char* v) { return rec(105, 2, this, x ^ y ^ int(z) ^ int(u), v); } };
// definitions out of order; perks given in every way
class md { public: int16_t v = 7; };
DYNAMIX_V1_DECLARE_MIXIN(md);
static int bound_uni(void* self, int a, int& r) { return rec(K_uni, 3, self, a, &r); }
static int bound_cmulti(const void* self, int a) { return rec(K_cmulti, 3, self, a, nullptr); }
using v1::bid; using v1::priority; using v1::upriority; using v1::bind;
#define P(k, i) pv[k][i].prio
#define B(k, i) pv[k][i].bid
DYNAMIX_V1_DEFINE_MIXIN(mb, bid(B(K_uni, 1), upriority(P(K_uni, 1), uni_msg)) & upriority(P(K_unic, 1), bid(B(K_unic, 1), unic_msg)) & priority(P(K_multi, 1), bid(B(K_multi, 1), multi_msg)) & bid(B(K_cmulti, 1), priority(P(K_cmulti, 1), cmulti_msg))
    & bid(B(K_ov0, 1), upriority(P(K_ov0, 1), ov_0_msg)) & bid(B(K_ov2, 1), priority(P(K_ov2, 1), ov_2_msg)) & v1::user_data(ud[1]));
DYNAMIX_V1_DEFINE_MIXIN(ma, v1::user_data(ud[0]) & upriority(P(K_uni, 0), bid(B(K_uni, 0), uni_msg)) & bid(B(K_unic, 0), upriority(P(K_unic, 0), unic_msg)) & bid(B(K_multi, 0), priority(P(K_multi, 0), multi_msg)) & priority(P(K_cmulti, 0), bid(B(K_cmulti, 0), cmulti_msg))
    & upriority(P(K_ov0, 0), bid(B(K_ov0, 0), ov_0_msg)) & priority(P(K_ov2, 0), bid(B(K_ov2, 0), ov_2_msg)));
DYNAMIX_V1_DEFINE_MIXIN(mc, v1::none & bid(B(K_uni, 2), upriority(P(K_uni, 2), uni_msg)) & bid(B(K_unic, 2), upriority(P(K_unic, 2), unic_msg)) & bid(B(K_multi, 2), priority(P(K_multi, 2), multi_msg)) & bid(B(K_cmulti, 2), priority(P(K_cmulti, 2), cmulti_msg))
    & bid(B(K_ov0, 2), upriority(P(K_ov0, 2), ov_0_msg)) & bid(B(K_ov2, 2), priority(P(K_ov2, 2), ov_2_msg)) & ar0_msg & ar3_msg & ar4_msg & ar5_msg & v1::user_data(ud[2]));
DYNAMIX_V1_DEFINE_MIXIN(md, bind(uni_msg, bound_uni) & v1::mixin_name("not md") & v1::dependency_mixin(dep) & bind(cmulti_msg, [](const void* s, int a) { return bound_cmulti(s, a); }));
DYNAMIX_V1_TYPE_CLASS(klass);
DYNAMIX_V1_DEFINE_TYPE_CLASS(klass) { return type.has<ma>() && !type.has<mc>(); }
DYNAMIX_V1_DEFINE_MESSAGE(uni); DYNAMIX_V1_DEFINE_MESSAGE(unic); DYNAMIX_V1_DEFINE_MESSAGE(multi); DYNAMIX_V1_DEFINE_MESSAGE(ov_0); DYNAMIX_V1_DEFINE_MESSAGE(ov_2);
DYNAMIX_V1_DEFINE_MESSAGE(ar0); DYNAMIX_V1_DEFINE_MESSAGE(ar3); DYNAMIX_V1_DEFINE_MESSAGE(ar4); DYNAMIX_V1_DEFINE_MESSAGE(ar5);
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, cmulti, int, a) { return rec(K_cmulti, 4, &dm_self, a, nullptr); }
DYNAMIX_V1_DEFINE_MESSAGE_1_WITH_DEFAULT_IMPL(int, deflt, int, a) { return rec(50, 4, &dm_self, a, nullptr); }
struct recorder { // a combinator which asks to stop after any number of results
    size_t num = 99; int res[8]; int n = 0, stop = 99;
    void set_num_results(size_t k) { vx_check(num == 99 && n == 0, "the number of results is announced once, before the results"); num = k; }
    bool add_result(int r) { res[n++] = r; return n <= stop; }
};
template <class T> struct sum_or_none : v1::combinators::sum<T> {};
static const mixin_info* inf(int i) { return i == 0 ? &g::get_mixin_info<ma>() : i == 1 ? &g::get_mixin_info<mb>() : &g::get_mixin_info<mc>(); }
static const feature_info& fi(int k) { switch (k) { case K_uni: return uni_msg_t::info; case K_unic: return unic_msg_t::info; case K_multi: return multi_msg_t::info; case K_cmulti: return cmulti_msg_t::info; case K_ov0: return ov_0_msg_t::info; default: return ov_2_msg_t::info; } }
struct at { v1::object o; bool has[3] = {}; int n = 0; int pos[3];
    explicit at(bool flip) {
        for (bool& h : has) { h = vx_flag("has"); n += h; }
        thrown e = tries([&] { auto m = v1::mutate(o); for (int j = 0; j < 3; ++j) { int i = flip ? 2 - j : j; if (!has[i]) continue; switch (i) { case 0: m.add<ma>(); break; case 1: m.add<mb>(); break; default: m.add<mc>(); } } });
        ok = e == T_none; if (!ok) vx_check(e == T_type, "a clash is a type error");
        int p = 0; for (int i = 0; i < 3; ++i) if (has[i]) { pos[i] = p; if (ok) vx_check(o.get_type().mixins[p] == inf(i), "v1 types are canonical: by name"); ++p; }
    }
    bool ok;
    const void* mx(int i) { return o.get_at(mixin_index_t(pos[i])); }
};
extern "C" void vx_main() {
    dynamix::domain& d = v1::domain::instance(); vx_check(ready, "order");
    vx_check(&d == &g::get_domain<v1::domain_tag>(), "one v1 domain");
#if PART == 1 // calls
    bool flip = vx_flag("flip"); at w(flip); auto& o = w.o; const v1::object& co = o; auto* q = pv[the_kind]; bool multicast = the_kind == K_multi || the_kind == K_cmulti || the_kind == K_ov2;
    auto before = [&](int a, int b) { return (q[a].bid > q[b].bid) | ((q[a].bid == q[b].bid) & ((q[a].prio < q[b].prio) | ((q[a].prio == q[b].prio) & (a > b)))); };
    bool clash = false; int32_t top = 0; bool any = false; for (int i = 0; i < 3; ++i) if (w.has[i]) { if (!any || q[i].bid > top) top = q[i].bid; any = true; }
    if (!multicast) for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) clash |= w.has[i] & w.has[j] & (q[i].bid == q[j].bid) & (q[i].prio == q[j].prio);
    vx_check(w.ok == !clash, "unicast providers of equal rank clash, multicast ones do not"); if (!w.ok) { vx_reach("clash"); return; }
    int best = -1; for (int i = 0; i < 3; ++i) if (w.has[i] && (best < 0 || before(i, best))) best = i;
    int arg = vx_i32("arg"), ref = 0, r = 0; const void* pref = the_kind == K_unic || the_kind == K_cmulti || the_kind == K_ov0 ? nullptr : &ref; bool dflt = the_kind == K_cmulti && !any; if (the_kind == K_ov0) arg = 0;
    uint32_t how = multicast ? vx_pick(4, "how") : 0; bool fol = best >= 0 && (the_kind == K_uni || the_kind == K_multi) && how == 0 && vx_flag("next bidder"); if (fol) follow[best] = true;
    recorder c; if (how == 1) c.stop = vx_pick(4, "stop"); if (how > 1) for (auto& x : ret) vx_assume(x > -1000 && x < 1000); v1::combinators::sum<int> s;
    thrown e = tries([&] { switch (the_kind) {
        case K_uni: r = uni(o, arg, ref); break;
        case K_unic: r = unic(co, arg); break;
        case K_multi: if (how == 0) r = multi(o, arg, ref); else if (how == 1) multi(o, arg, ref, c); else if (how == 2) multi(o, arg, ref, s); else r = multi<v1::combinators::sum>(o, arg, ref); break;
        case K_cmulti: if (how == 0) r = cmulti(co, arg); else if (how == 1) cmulti(co, arg, c); else if (how == 2) cmulti(co, arg, s); else r = cmulti<v1::combinators::sum>(co, arg); break;
        case K_ov0: r = ov(co); break;
        case K_ov2: if (how == 0) r = ov(o, arg, ref); else if (how == 1) ov(o, arg, ref, c); else if (how == 2) ov(o, arg, ref, s); else r = ov<v1::combinators::sum>(o, arg, ref); break;
    } });
    if (dflt) { vx_check(e == T_none && ncalls == 1 && calls[0].who == 4 && calls[0].self == &o && calls[0].a == arg, "the default implementation runs on the object"); vx_check(how == 1 ? c.n == 1 && c.num == 1 && c.res[0] == ret[4] : how == 2 ? s.result() == ret[4] : r == ret[4], "and gives its result"); vx_reach("default"); return; }
    if (!any) { vx_check(e == T_feature && ncalls == 0, "a message nobody provides is a feature error"); vx_reach("nobody"); return; }
    // the groups which run: the top bidders, and after the top one follows, those with the next lower bid
    bool lower = false; int32_t nb = 0; for (int i = 0; i < 3; ++i) if (w.has[i] && q[i].bid < top) { if (!lower || q[i].bid > nb) nb = q[i].bid; lower = true; }
    int want[6], nw = 0; auto group = [&](int32_t b, bool all) { int g[3], n = 0; for (int i = 0; i < 3; ++i) if (w.has[i] && q[i].bid == b) { int k = n++; while (k && before(g[k - 1], i) == false) { g[k] = g[k - 1]; --k; } g[k] = i; } // in rank order
        if (all) for (int k = n - 1; k >= 0; --k) want[nw++] = g[k]; else want[nw++] = g[0]; };
    group(top, multicast); size_t nt = nw;
    if (fol) { vx_check(next_has[best] == lower, "has next bidder exactly when there is a lower bid"); if (lower) group(nb, multicast); vx_reach("next"); }
    if (how == 1 && size_t(c.stop) < nt) nw = c.stop + 1;
    vx_check(e == (fol && !lower ? T_feature : T_none), "the message is run, or there is no next bidder"); vx_check(ncalls == nw, "exactly the providers which should run are run");
    for (int k = 0; k < nw && k < ncalls; ++k) vx_check(calls[k].kind == the_kind && calls[k].who == want[k] && calls[k].self == w.mx(want[k]) && calls[k].a == arg && calls[k].ref == pref, "each in its place, on its mixin, with the arguments");
    if (e == T_none && ncalls == nw) {
        int sum = 0; for (int k = 0; k < nw && how > 1; ++k) sum += ret[calls[k].who];
        if (how == 1) { vx_check(c.num == nt && c.n == nw, "results are announced and handed over"); for (int k = 0; k < nw && k < c.n; ++k) vx_check(c.res[k] == ret[want[k]], "in the order of calls"); }
        else vx_check((how == 0 ? r : how == 2 ? s.result() : r) == (how == 0 ? ret[want[nw - 1]] : sum), "the result of the call");
    }
    vx_reach("run");
#elif PART == 2 // what definitions record
    for (int i = 0; i < 3; ++i) {
        auto& m = *inf(i); static const char* nm[] = {"ma", "mb", "mc"};
        vx_check(m.name.to_std() == nm[i] && m.dom == d.to_c_hanlde() && d.get_mixin_info(m.id) == &m && d.get_mixin_info(std::string_view(nm[i])) == &m, "a defined mixin is registered under its name in the v1 domain");
        vx_check(m.force_external && !m.dependency && m.user_data == ud[i] && m.size == (i < 3 ? sizeof(int64_t) : 0) && m.alignment == alignof(int64_t), "external, with the user data given");
        vx_check(m.init && m.move_init && m.move_asgn && (m.copy_init != nullptr) == (i != 2) && (m.copy_asgn != nullptr) == (i != 2), "with the functions of its class");
        vx_check(m.num_features == (i == 2 ? N_kinds + 4 : N_kinds), "with the features which were listed");
        for (int k = 0; k < N_kinds; ++k) { int n = 0; for (auto& f : m.features_span()) if (f.info == &fi(k)) { ++n; vx_check(f.bid == pv[k][i].bid && f.priority == pv[k][i].prio && f.payload, "with bid and priority, however they were given"); } vx_check(n == 1, "each feature is listed once"); }
    }
    { auto& m = g::get_mixin_info<md>(); vx_check(m.name.to_std() == "not md" && d.get_mixin_info("not md") == &m && !d.get_mixin_info("md") && m.dependency == dep && m.force_external && m.user_data == 0 && m.size == 2, "a mixin may have another name and be a dependency");
      vx_check(m.num_features == 2 && m.features[0].info == &fi(K_uni) && m.features[1].info == &fi(K_cmulti) && m.features[0].payload == reinterpret_cast<feature_payload>(&bound_uni) && m.features[0].bid == 0 && m.features[0].priority == 0, "bound functions are the payloads");
      if (!dep) { v1::object o; v1::mutate(o).add<md>(); int a = vx_i32("a"), r = 0; int x = uni(o, a, r); vx_check(ncalls == 1 && calls[0].who == 3 && calls[0].self == o.get<md>() && calls[0].a == a && calls[0].ref == &r && x == ret[3], "a bound function is called"); ncalls = 0; x = cmulti(o, a); vx_check(ncalls == 1 && calls[0].who == 3 && calls[0].self == o.get<md>() && x == ret[3], "a bound const function is called"); }
      else { v1::object o; v1::mutate(o).add<md>(); vx_check(o.empty(), "a dependency is not added on its own"); } }
    static const char* fn[] = {"uni", "unic", "multi", "cmulti", "ov_0", "ov_2"};
    for (int k = 0; k < N_kinds; ++k) { auto& f = fi(k); vx_check(f.name.to_std() == fn[k] && d.get_feature_info(std::string_view(fn[k])) == &f && f.allow_clashes == (k == K_multi || k == K_cmulti || k == K_ov2) && (f.default_payload != nullptr) == (k == K_cmulti), "a message is a feature of its name, clashing if multicast, with its default"); }
    vx_check(d.name() == "v1compat" && d.settings().canonicalize_types, "the v1 domain is canonicalizing");
#elif PART == 4 // objects
    at w(vx_flag("flip")); if (!w.ok) return; auto& o = w.o; const v1::object& co = o; auto& t = o.get_type(); bool can = !w.has[2]; int64_t st[3];
    auto state = [&](auto& x, int i) -> int64_t* { return i == 0 ? x.template has<ma>() ? &const_cast<int64_t&>(x.template get<ma>()->state) : nullptr : i == 1 ? x.template has<mb>() ? &const_cast<int64_t&>(x.template get<mb>()->state) : nullptr : x.template has<mc>() ? &const_cast<int64_t&>(x.template get<mc>()->state) : nullptr; };
    for (int i = 0; i < 3; ++i) { vx_check((state(o, i) != nullptr) == w.has[i], "an object has what was added"); if (w.has[i]) { vx_check(*state(o, i) == i, "mixins are constructed"); *state(o, i) = st[i] = vx_u64("state"); } }
    bool c = w.has[0] && !w.has[2]; v1::type_class local([](dnmx_type_handle h) noexcept { return type::from_c_handle(h)->num_mixins() == 2; });
    vx_check(o.is_a<klass>() == c && co.is_of("klass") == c && o.is_of<klass>() == c && d.get_type_class("klass") == &klass::m_dynamix_type_class, "is of a class by class and by name");
    vx_check(co.is_a(local) == (w.n == 2), "is of a class which is not registered"); vx_check(tries([&] { (void)o.is_of("class"); }) == T_type, "an unknown class is an error");
    for (int k = 0; k < N_kinds; ++k) vx_check(o.implements(fi(k)) == (w.n > 0 || k == K_cmulti), "implements what a mixin provides or has a default");
    vx_check(co.implements(uni_msg) == (w.n > 0) && co.implements(cmulti_msg) && co.implements(deflt_msg) && co.implements(ar0_msg) == w.has[2], "by message as well");
    if (w.has[0]) { auto* m = o.get<ma>(); const ma* cm = m; vx_check(m->me() == &o && cm->me() == &o && v1::object::of(m) == &o && v1::object::of(cm) == &o, "a mixin finds its v1 object"); }
    if (w.has[2]) { auto* m = o.get<mc>(); vx_check(m->me() == &o, "any mixin does"); }
    vx_check(co.copyable() == can && t.num_objects() == (w.n ? 1 : t.num_objects()), "copyable when all mixins can be copied"); size_t count = t.num_objects();
    int op = vx_pick(3, "op");
    if (op == 0) {
        thrown e = tries([&] { v1::object x = co.copy(); vx_check(&x.get_type() == &t && !(x.get_type().dom.to_c_hanlde() != d.to_c_hanlde()), "a copy has the type of its source"); for (int i = 0; i < 3; ++i) if (w.has[i]) { vx_check(*state(x, i) == st[i] && state(x, i) != state(o, i), "a copy has the state of its source, in its own mixins"); *state(x, i) = ~st[i]; vx_check(*state(o, i) == st[i], "of which it is independent"); }
            if (w.has[0]) vx_check(x.get<ma>()->me() == &x, "a copy's mixins belong to the copy"); });
        vx_check((e == T_none) == can, "what cannot be copied is not"); if (!can) vx_check(e == T_object, "by an object error"); vx_reach(can ? "copied" : "cannot");
    } else if (op == 1) {
        v1::object x = std::move(o); vx_check(&x.get_type() == &t && o.empty() && &o.get_domain() == &d, "moving takes the mixins along"); for (int i = 0; i < 3; ++i) if (w.has[i]) vx_check(*state(x, i) == st[i], "and their state"); if (w.has[0]) vx_check(x.get<ma>()->me() == &x, "which find their new object"); o = std::move(x); vx_check(&o.get_type() == &t, "and back"); vx_reach("moved");
    } else {
        thrown e = tries([&] { v1::mutate(o).remove<ma>(); }); vx_check(e == T_none && !o.has<ma>(), "mutation removes"); for (int i = 1; i < 3; ++i) if (w.has[i]) vx_check(*state(o, i) == st[i], "and keeps the others' state"); vx_reach("mutated"); return;
    }
    for (int i = 0; i < 3; ++i) if (w.has[i]) vx_check(*state(o, i) == st[i], "the object keeps its state");
    vx_check(t.num_objects() == count || !w.n, "no object is left behind");
#else // arguments of every arity
    at w(false); vx_assume(w.ok); auto& o = w.o; vx_check(w.has[0] + w.has[1] + w.has[2] == w.n, "n");
    int x = vx_i32("x"), y = vx_i32("y"), r = 0; token t(vx_i32("t")); uint32_t k = vx_pick(5, "arity"); for (auto& q : ret) vx_assume(q < 1000); vx_assume(x > -1000 && x < 1000 && t.v > -1000 && t.v < 1000); thrown e;
    switch (k) {
    case 0: e = tries([&] { r = ar0(o); }); break;
    case 1: e = tries([&] { r = deflt(o, x); }); vx_check(e == T_none && r == ret[4] && ncalls == 1 && calls[0].self == &o && calls[0].a == x && calls[0].kind == 50, "a default runs where nobody provides the message"); vx_check(o.implements(deflt_msg) && !o.get_type().implements_strong<deflt_msg_t>(), "a message with a default is implemented weakly"); vx_reach("end"); return;
    case 2: e = tries([&] { r = ar3(o, std::move(x), std::move(t), y); }); break;
    case 3: e = tries([&] { r = ar4(o, x, &y, t, t); }); break;
    default: e = tries([&] { r = ar5(o, x, int8_t(y), int64_t(x) << 32, y & 1, "s"); }); break;
    }
    if (!w.has[2]) { vx_check(e == T_feature && ncalls == 0, "nobody provides the message"); vx_check(!o.implements(ar0_msg) && !o.implements(ar3_msg_t::info), "and it is not implemented"); vx_reach("nobody"); return; }
    vx_check(o.implements(ar0_msg) && o.implements(ar3_msg_t::info), "it is implemented");
    vx_check(e == T_none && ncalls == 1 && calls[0].self == w.mx(2), "the provider runs once on its mixin"); int res = ret[2];
    switch (k) {
    case 0: vx_check(r == res, "no arguments"); break;
    case 2: vx_check(r == int(unsigned(res) + 1) && calls[0].a == t.v && calls[0].ref == &x, "references stay references, values are moved"); break;
    case 3: vx_check(r == int(unsigned(res) + 1) && calls[0].a == int(unsigned(x) + t.v) && calls[0].ref == &y, "references and pointers"); break;
    default: vx_check(r == res && calls[0].a == (x ^ int8_t(y) ^ 0 ^ (y & 1)), "five arguments"); break;
    }
#endif
    vx_reach("end");
}
