// messages, mixins and the call log shared by the message harnesses
#pragma once
#include "lib.hpp"
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/mixin_info_data.hpp>
#include <dynamix/object_of.hpp>
class tobj : public object { public: using object::object; };
#define NM 3
template <int I> struct MX;
DYNAMIX_DECLARE_MIXIN(MX<0>); DYNAMIX_DECLARE_MIXIN(MX<1>); DYNAMIX_DECLARE_MIXIN(MX<2>); DYNAMIX_DECLARE_MIXIN(MX<3>);
DYNAMIX_DECLARE_SIMPLE_MSG(uni, int(tobj&, int, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(uni_d, int(tobj&, int, int&));
DYNAMIX_DECLARE_SIMPLE_MSG(multi, int(const tobj&, int));
DYNAMIX_DECLARE_SIMPLE_MSG(multi_d, int(const tobj&, int));
DYNAMIX_DECLARE_MSG(fn_msg, fn, int, (tobj&, int, int&));
DYNAMIX_DECLARE_MSG(fnc_msg, fnc, int, (const tobj&, int));
struct call_rec { int who; const void* self; int arg; const void* ref; };
static call_rec calls[32]; static int ncalls; static int ret[8];
static int record(int who, const void* self, int arg, const void* ref) { calls[ncalls++] = {who, self, arg, ref}; return ret[who]; }
enum { W_default = 7 };
template <int I> struct MX {
    int64_t state = I;
    int fn(int a, int& r) { return record(I, this, a, &r); }
    int fnc(int a) const { return record(I, this, a, nullptr); }
};
#include <dynamix/msg/func_traits.hpp>
DYNAMIX_MAKE_FUNC_TRAITS(fn);
DYNAMIX_MAKE_FUNC_TRAITS(fnc);
#include <dynamix/msg/define_msg.hpp>
static int def_uni(tobj& o, int a, int& r) { return record(W_default, &o, a, &r); }
static int def_multi(const tobj& o, int a) { return record(W_default, &o, a, nullptr); }
DYNAMIX_DEFINE_SIMPLE_MSG(uni, unicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(uni_d, unicast, true, def_uni);
DYNAMIX_DEFINE_SIMPLE_MSG(multi, multicast);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(multi_d, multicast, true, def_multi);
DYNAMIX_DEFINE_MSG(fn_msg, unicast, fn, int, (tobj&, int, int&));
DYNAMIX_DEFINE_MSG(fnc_msg, multicast, fnc, int, (const tobj&, int));
static util::mixin_info_data* datas[NM + 1];
const mixin_info& _dynamix_get_mixin_info(const MX<0>*) { return datas[0]->info; }
const mixin_info& _dynamix_get_mixin_info(const MX<1>*) { return datas[1]->info; }
const mixin_info& _dynamix_get_mixin_info(const MX<2>*) { return datas[2]->info; }
const mixin_info& _dynamix_get_mixin_info(const MX<3>*) { return datas[3]->info; }
enum msg_kind { K_uni, K_uni_d, K_multi, K_multi_d, K_fn, K_fnc };
static const feature_info& finfo(int k) { switch (k) { case K_uni: return uni::info; case K_uni_d: return uni_d::info; case K_multi: return multi::info; case K_multi_d: return multi_d::info; case K_fn: return fn_msg::info; default: return fnc_msg::info; } }
struct provider { bool on; int32_t bid, prio; };
static provider pv[NM + 1];
template <int I> static void build(util::mixin_info_data& d, int kind, const char* name) {
    using namespace util; datas[I] = &d;
    mixin_info_data_builder<MX<I>> b(d, std::string_view(name));
    if (!pv[I].on) return;
    builder_perks p = builder_literals::feature_bid_priority(pv[I].bid, pv[I].prio);
    switch (kind) {
    case K_uni: b.template implements_by<uni>([](MX<I>* m, int a, int& r) { return record(I, m, a, &r); }, p); break;
    case K_uni_d: b.template implements_by<uni_d>([](MX<I>* m, int a, int& r) { return record(I, m, a, &r); }, p); break;
    case K_multi: b.template implements_by<multi>([](const MX<I>* m, int a) { return record(I, m, a, nullptr); }, p); break;
    case K_multi_d: b.template implements_by<multi_d>([](const MX<I>* m, int a) { return record(I, m, a, nullptr); }, p); break;
    case K_fn: b.template implements<fn_msg>(p); break;
    case K_fnc: b.template implements<fnc_msg>(p); break;
    }
}
// a domain with NM (plus one which never joins) mixins, a type of the first n of them in one of two orders
struct world {
    util::mixin_info_data d[NM + 1]; domain dom{"d"}; uint32_t n; bool flip; int pos2mx[NM]; const type* t; int kind;
    explicit world(int k) : kind(k) {
        n = vx_pick(NM + 1, "mixins"); flip = n > 1 && vx_flag("flip");
        for (uint32_t i = 0; i <= NM; ++i) {
            bool on = i == NM || (i < n && vx_flag("provides")); pv[i] = {on, 0, 0};
            if (on && i < NM) { pv[i].bid = vx_i32("bid"); pv[i].prio = vx_i32("priority"); }
        }
        build<0>(d[0], k, "a"); build<1>(d[1], k, "b"); build<2>(d[2], k, "c"); build<3>(d[3], k, "out");
        for (int i = NM; i >= 0; --i) dom.register_mixin(d[i].info);
        list q; for (uint32_t i = 0; i < n; ++i) { pos2mx[i] = flip ? n - 1 - i : i; q.push_back(&d[pos2mx[i]].info); }
        t = &dom.get_type(q); for (auto& r : ret) r = vx_i32("result");
    }
    int pos(int mx) const { return flip ? n - 1 - mx : mx; }
    // provider a is ranked before b
    bool before(int a, int b) const { return (pv[a].bid > pv[b].bid) | ((pv[a].bid == pv[b].bid) & ((pv[a].prio < pv[b].prio) | ((pv[a].prio == pv[b].prio) & (pos(a) > pos(b))))); }
    bool any() const { for (uint32_t i = 0; i < n; ++i) if (pv[i].on) return true; return false; }
    int32_t top_bid() const { bool f = false; int32_t b = 0; for (uint32_t i = 0; i < n; ++i) if (pv[i].on && (!f || pv[i].bid > b)) { f = true; b = pv[i].bid; } return b; }
    const void* mx(object& o, int i) { return o.get_at(mixin_index_t(pos(i))); }
};
