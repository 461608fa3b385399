// C15: unicast messages
#include "msg.hpp"
extern "C" void vx_main() {
    static const int kinds[] = {K_uni, K_uni_d, K_fn};
    world w(kinds[vx_pick(3, "kind")]);
    tobj o(*w.t); int arg = vx_i32("arg"), ref = 0, r = 0;
    thrown e = tries([&] { switch (w.kind) { case K_uni: r = uni::call(o, arg, ref); break; case K_uni_d: r = uni_d::call(o, arg, ref); break; default: r = fn(o, arg, ref); } });
    if (w.any()) {
        vx_check(e == T_none && ncalls == 1, "exactly one provider is run");
        int c = calls[0].who; vx_check(c < (int)w.n && pv[c].on, "a provider of the object's type");
        for (uint32_t i = 0; i < w.n; ++i) if (pv[i].on && (int)i != c) vx_check(w.before(c, i), "the top-ranked provider is run");
        vx_check(calls[0].self == w.mx(o, c), "on the object's own mixin");
        vx_check(r == ret[c], "its result is returned"); vx_reach("provided");
    } else if (w.kind == K_uni_d) {
        vx_check(e == T_none && ncalls == 1 && calls[0].who == W_default && calls[0].self == &o && r == ret[W_default], "without providers the default is run on the object"); vx_reach("default");
    } else { vx_check(e == T_feature && ncalls == 0, "with neither a feature error is thrown and nothing runs"); vx_reach("none"); }
    if (ncalls) vx_check(calls[0].arg == arg && calls[0].ref == &ref, "with the caller's arguments");
}
