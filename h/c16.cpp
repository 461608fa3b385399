// C16: multicast messages
#include "msg.hpp"
#include <dynamix/v1compat/combinators.hpp>
struct recorder { // a combinator which asks to stop after any number of results
    size_t num = 99, announced = 0, stop; int res[8]; int calls_then[8]; int n = 0;
    void set_num_results(size_t k) { num = k; ++announced; vx_check(n == 0, "the number of results is announced before the results"); }
    bool add_result(int r) { calls_then[n] = ncalls; res[n++] = r; return size_t(n) <= stop; }
};
// the calls from 0 to ncalls are the top bidders in order (all of them, or the first ones)
static void in_order(world& w, object& o, int arg, bool all) {
    int32_t top = w.top_bid(); int cnt = 0;
    for (uint32_t i = 0; i < w.n; ++i) cnt += pv[i].on & (pv[i].bid == top);
    vx_check(all ? ncalls == cnt : ncalls <= cnt, "every provider with the highest bid is run, and no other");
    for (int k = 0; k < ncalls; ++k) {
        int c = calls[k].who; vx_check(c < (int)w.n && pv[c].on && pv[c].bid == top, "only providers with the highest bid are run");
        vx_check(calls[k].self == w.mx(o, c) && calls[k].arg == arg, "on the object's own mixin, with the caller's arguments");
        if (k) vx_check(w.before(c, calls[k - 1].who), "higher priority number first, then in mixin order");
    }
    // nobody who comes before the last one is left out
    if (ncalls) for (uint32_t i = 0; i < w.n; ++i) if (pv[i].on) { bool run = false; for (int k = 0; k < ncalls; ++k) run |= calls[k].who == (int)i; vx_check(run | (pv[i].bid != top) | w.before(i, calls[ncalls - 1].who), "nobody is skipped"); }
}
extern "C" void vx_main() {
    static const int kinds[] = {K_multi, K_multi_d, K_fnc};
    world w(kinds[vx_pick(3, "kind")]); tobj o(*w.t); const tobj& co = o; int arg = vx_i32("arg"), r = 0;
    uint32_t how = vx_pick(w.kind == K_fnc ? 2 : 4, "how"); recorder rec; v1compat::combinators::sum<int> sum; v1compat::combinators::boolean_and<int> land;
    using caller = msg_caller<const tobj, int, int>;
    thrown e = tries([&] { switch (how) {
        case 0: switch (w.kind) { case K_multi: r = multi::call(co, arg); break; case K_multi_d: r = multi_d::call(co, arg); break; default: r = fnc(co, arg); } break;
        case 1: rec.stop = vx_pick(4, "stop"); caller::call_with_v1_combinator(finfo(w.kind), rec, co, int(arg)); break;
        case 2: for (auto& x : ret) vx_assume(x > -1000 && x < 1000); caller::call_with_v1_combinator(finfo(w.kind), sum, co, int(arg)); break;
        case 3: for (auto& x : ret) x &= 1; caller::call_with_v1_combinator(finfo(w.kind), land, co, int(arg)); break;
    } });
    bool dflt = !w.any() && w.kind == K_multi_d, none = !w.any() && !dflt;
    if (none) { vx_check(e == T_feature && ncalls == 0 && rec.n == 0, "without providers and default a feature error is thrown and nothing runs"); vx_reach("none"); return; }
    vx_check(e == T_none && ncalls > 0, "the message is run");
    if (dflt) { vx_check(ncalls == 1 && calls[0].who == W_default && calls[0].self == &o && calls[0].arg == arg, "without providers the default is run on the object"); vx_reach("default"); }
    auto top = [&] { int32_t t = w.top_bid(); size_t c = 0; for (uint32_t i = 0; i < w.n; ++i) c += pv[i].on & (pv[i].bid == t); return dflt ? size_t(1) : c; };
    auto order = [&](bool all) { if (!dflt) in_order(w, o, arg, all); };
    switch (how) {
    case 0: order(true); vx_check(r == ret[calls[ncalls - 1].who], "the result is the one of the last one run"); vx_reach("plain"); break;
    case 1: {
        size_t t = top(); vx_check(rec.announced == 1 && rec.num == t, "the number of results is announced, once");
        vx_check(rec.n == ncalls, "each result is given to the combinator");
        for (int k = 0; k < rec.n; ++k) vx_check(rec.res[k] == ret[calls[k].who] && rec.calls_then[k] == k + 1, "results come in the order of the calls, each right after its call");
        bool stopped = rec.stop < t; vx_check(size_t(rec.n) == (stopped ? rec.stop + 1 : t), "no provider runs after the combinator asks to stop");
        order(!stopped); vx_reach("recorder"); break;
    }
    case 2: { order(true); int s = 0; for (int k = 0; k < ncalls; ++k) s += ret[calls[k].who]; vx_check(sum.result() == s, "the sum of the results"); vx_reach("sum"); break; }
    case 3: { bool all = true; for (int k = 0; k < ncalls; ++k) { vx_check(all, "nothing runs after a false"); all = all && ret[calls[k].who]; } vx_check(land.result() == all, "the conjunction of the results"); order(all); vx_reach("and"); break; }
    }
}
