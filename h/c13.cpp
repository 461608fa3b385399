// C13: invalid type requests
#include "lib.hpp"
#include <cstring>
#define N 3
static void one(void*) {}
extern "C" void vx_main() {
    uint32_t part = vx_pick(2, "part");
    if (part == 0) {
        // 0: fine, 1 and 2: clash with each other, 3: never registered, 4: of another domain, 5: was unregistered
        mixin_info m[6] = {plain("a"), plain("b"), plain("c"), plain("un"), plain("other"), plain("gone")};
        bool allow = vx_flag("allow_clashes"); feature_info f = feat("f", allow);
        feature_for_mixin fb = {&f, (dnmx_feature_payload)&one, vx_i32("bid"), vx_i32("prio")}, fc = {&f, (dnmx_feature_payload)&one, vx_i32("bid"), vx_i32("prio")};
        m[1].features = &fb; m[1].num_features = 1; m[2].features = &fc; m[2].num_features = 1;
        domain dom("d"), oth("o"); oth.register_mixin(m[4]); // same id as a mixin of dom
        bool rev = vx_flag("reverse"); dom.register_mixin(m[5]); dom.register_mixin(m[rev ? 1 : 0]); dom.register_mixin(m[rev ? 0 : 1]); dom.register_mixin(m[2]); dom.unregister_mixin(m[5]);
        list ok = {&m[0], &m[1]}; const type* before = nullptr; if (vx_flag("earlier")) before = &dom.get_type(ok);
        size_t nt = dom.num_types(), nq = dom.num_type_queries();
        list q; uint32_t n = vx_pick(N + 1, "len"), c[N]; bool bad = false, hb = false, hc = false;
        for (uint32_t i = 0; i < n; ++i) {
            c[i] = vx_choose(6, "mixin"); q.push_back(m + c[i]); bad |= c[i] > 2; hb |= c[i] == 1; hc |= c[i] == 2;
            for (uint32_t j = 0; j < i; ++j) bad |= c[i] == c[j];
        }
        bad |= hb & hc & !allow & (fb.bid == fc.bid) & (fb.priority == fc.priority);
        bool wrong_dom = vx_flag("wrong_domain"), mut = wrong_dom || vx_flag("by_mutation");
        const type* t = nullptr; thrown e;
        if (!mut) e = tries([&] { t = &dom.get_type(q); });
        else { type_mutation tm(wrong_dom ? oth : dom); for (auto* x : q) tm.add(*x); e = tries([&] { t = &dom.get_type(std::move(tm)); }); bad |= wrong_dom; }
        vx_check(bad == (e != T_none), "an error exactly when the request is invalid");
        vx_check(e == T_none || e == T_type || e == T_domain, "the error is a type or domain error");
        if (bad) {
            vx_check(dom.num_types() == nt && dom.num_type_queries() == nq && oth.num_types() == 0 && oth.num_type_queries() == 0, "an invalid request leaves no trace");
            // again: still invalid
            if (!wrong_dom) vx_check(tries([&] { dom.get_type(q); }) == e && dom.num_types() == nt, "it stays invalid");
            vx_reach("invalid");
        } else { vx_check(same(t->mixins, q), "a valid request gives the mixins"); vx_reach("valid"); }
        const type& after = dom.get_type(ok);
        vx_check(same(after.mixins, ok) && (!before || &after == before), "other requests are served as before");
    } else {
        // out of memory at any allocation
        checked_resource mem; mixin_info m[3] = {plain("a"), plain("b"), plain("c")};
        feature_info f = feat("f", true); feature_for_mixin ff = {&f, (dnmx_feature_payload)&one, 1, 2}; for (auto& x : m) { x.features = &ff; x.num_features = 1; }
        { domain dom("d", domain_settings{}, 0, nullptr, allocator(&mem));
        for (auto& x : m) dom.register_mixin(x);
        list first = pick_seq(m, 3, 2, "earlier"); dom.get_type(first);
        list q = pick_seq(m, 3, VX_TIER == 2 ? 3 : 2, "seq"); const type* t = nullptr; bool mut = vx_flag("by_mutation");
        uint32_t k = vx_choose(12, "fail_at"); mem.count = 0; mem.fail_at = (int)k;
        thrown e = tries([&] { if (mut) { type_mutation tm(dom, allocator(&mem)); for (auto* x : q) tm.add(*x); t = &dom.get_type(std::move(tm)); } else t = &dom.get_type(q); });
        mem.fail_at = -1;
        vx_check((e == T_none) == (t != nullptr), "a result or an error");
        vx_check(e == T_none || (e == T_alloc && mem.failed), "the request fails exactly with bad_alloc, and only when memory ran out");
        if (mem.count < 12 && k < 12 && e == T_none) vx_check(!mem.failed, "running out of memory is reported");
        vx_check(mem.failed || mem.count <= 12, "harness: enough fault points");
        if (t) vx_check(same(t->mixins, q), "mixins as requested");
        const type& again = dom.get_type(q);
        vx_check(same(again.mixins, q) && (!t || t == &again), "a later request succeeds");
        vx_check(same(dom.get_type(first).mixins, first), "and so does an earlier one");
        size_t want = (q.empty() ? 0 : 1) + (first.empty() || first == q ? 0 : 1);
        vx_check(dom.num_types() == want, "one type per sequence");
        if (e != T_none) vx_reach("out of memory"); else vx_reach("enough memory"); }
        vx_check(mem.nlive == 0, "nothing leaks");
    }
    vx_reach("end");
}
