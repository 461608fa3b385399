// C17: next implementers and next bidders
#include "msg.hpp"
#include <dynamix/msg/next_impl.hpp>
template <int I> static void from(world& w, object& o) {
    auto* self = static_cast<MX<I>*>(const_cast<void*>(w.mx(o, I))); int arg = vx_i32("arg"), ref = 0, r = 0; bool uc = w.kind == K_fn;
    // the one ranked right after, and the group with the next lower bid
    int nx = -1; bool has = false, hasSet = false; int32_t nb = 0;
    for (uint32_t i = 0; i < w.n; ++i) if (pv[i].on && pv[I].on && (int)i != I) {
        if (w.before(I, i)) { has = true; if (nx < 0 || w.before(i, nx)) nx = i; }
        if (pv[i].bid < pv[I].bid) { if (!hasSet || pv[i].bid > nb) nb = pv[i].bid; hasSet = true; }
    }
    auto& fi = finfo(w.kind); auto* p = w.t->find_next_implementer(fi, w.d[I].info);
    vx_check((p != nullptr) == has, "a next implementer exactly when somebody is ranked lower");
    if (p) vx_check((int)p->mixin_index == w.pos(nx), "it is the one ranked right after");
    auto s = w.t->find_next_bidder_set(fi, w.d[I].info);
    vx_check(s.empty() == !hasSet, "a next bidder set exactly when there is a lower bid");
    size_t cnt = 0; for (uint32_t i = 0; i < w.n; ++i) cnt += pv[i].on && pv[I].on && hasSet && pv[i].bid == nb;
    vx_check(s.size() == (hasSet ? cnt : 0), "the set is the whole group with the next lower bid");
    for (size_t k = 0; k < s.size(); ++k) { int c = w.flip ? w.n - 1 - s[k].mixin_index : s[k].mixin_index; vx_check(pv[c].bid == nb && (k == 0 || w.before(w.flip ? w.n - 1 - s[k - 1].mixin_index : s[k - 1].mixin_index, c)), "of providers with that bid, in order of rank"); }
    // the helpers
    if (uc) vx_check(has_next_impl_msg<fn_msg>(self) == has && has_next_bidder_set<fn_msg>(self) == hasSet, "has_next_*"); else vx_check(has_next_impl_msg<fnc_msg>(self) == has && has_next_bidder_set<fnc_msg>(self) == hasSet, "has_next_*");
    uint32_t how = vx_pick(3, "how"); const MX<I>* cself = self;
    thrown e = tries([&] { switch (how) {
        case 0: r = uc ? call_next_impl_msg<fn_msg>(self, arg, ref) : call_next_impl_msg<fnc_msg>(cself, arg); break;
        case 1: r = uc ? call_next_bidder_set<fn_msg>(self, arg, ref) : call_next_bidder_set<fnc_msg>(cself, arg); break;
        default: r = uc ? call_next_bidder_top<fn_msg>(self, arg, ref) : call_next_bidder_top<fnc_msg>(cself, arg); break;
    } });
    if (how == 0 ? !has : !hasSet) { vx_check(e == T_feature && ncalls == 0, "a feature error when there is no next one"); vx_reach("no next"); return; }
    vx_check(e == T_none && ncalls == (how == 1 ? (int)cnt : 1), "exactly those are run"); vx_reach("next");
    for (int k = 0; k < ncalls; ++k) {
        int c = calls[k].who; vx_check(calls[k].self == w.mx(o, c) && calls[k].arg == arg && (!uc || calls[k].ref == &ref), "on the object's mixins with the arguments");
        if (how == 0) vx_check(c == nx, "the next implementer is run");
        else vx_check(pv[c].bid == nb, "only the next bidders are run");
        if (how == 1 && k) vx_check(w.before(c, calls[k - 1].who), "in multicast order");
    }
    if (how == 2) for (uint32_t i = 0; i < w.n; ++i) if (pv[i].on && (int)i != calls[0].who) vx_check((pv[i].bid != nb) | w.before(calls[0].who, i), "the top of the next bidders is run");
    vx_check(r == ret[calls[ncalls - 1].who], "the result of the last one run");
}
extern "C" void vx_main() {
    world w(vx_flag("multicast") ? K_fnc : K_fn); tobj o(*w.t);
    auto none = [&](const feature_info& f, const mixin_info& m) { vx_check(!w.t->find_next_implementer(f, m) && w.t->find_next_bidder_set(f, m).empty(), "none for a mixin or feature which is not in the type"); };
    none(finfo(w.kind), w.d[3].info); none(uni::info, w.d[0].info); mixin_info un = plain("un"); none(finfo(w.kind), un);
    for (uint32_t i = w.n; i < NM; ++i) none(finfo(w.kind), w.d[i].info);
    if (w.n) switch (vx_pick(w.n, "from")) { case 0: from<0>(w, o); break; case 1: from<1>(w, o); break; default: from<2>(w, o); }
    vx_reach("end");
}
