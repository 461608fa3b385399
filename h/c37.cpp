// C37: concurrent use of a domain is linearizable
#include "lib.hpp"
#include <dynamix/domain_traverse.hpp>
#include <dynamix/type_class.hpp>
// everything the threads share; sequential histories run on others of the same kind
static uint32_t cfg_x, cfg_q; static int32_t prio[2]; static bool warm, ruled; static uint32_t cfg_look;
static bool of_any(dnmx_type_handle) noexcept { return true; }
static dnmx_error_return_t needs_c(dnmx_type_mutation_handle h, uintptr_t ud) { // what contains x gets c
    auto* m = (const mixin_info*)ud; auto& v = type_mutation::from_c_handle(h)->mixins; bool x = false, c = false;
    for (auto* p : v) { x |= p == m + cfg_x; c |= p == m + 2; }
    if (x && !c) v.push_back(m + 2);
    return 0;
}
static dnmx_error_return_t no_b_with_c(dnmx_type_mutation_handle h, uintptr_t ud) { // c replaces b
    auto* m = (const mixin_info*)ud; auto& v = type_mutation::from_c_handle(h)->mixins; bool c = false;
    for (auto* p : v) c |= p == m + 2;
    if (c) for (size_t i = 0; i < v.size(); ++i) if (v[i] == m + 1) { v.erase(v.begin() + i); break; }
    return 0;
}
enum { O_get, O_get2, O_add, O_remove, O_add2, O_collect, O_register, O_unregister, O_look, O_drop, O_make, O_get_e, O_class, O_kinds };
struct res { const type* t = nullptr; uint32_t v = 0; int from = 0, to = 0; };
struct world {
    domain d{"d"}; mixin_info m[5] = {plain("a"), plain("b"), plain("c"), plain("d"), plain("e")}; feature_info f = feat("f"); feature_for_mixin ff = {}; type_class tc; mutation_rule_info r[2];
    std::unique_ptr<object> held, drop, made[2]; _Atomic(int) nmade = 0;
    world() {
        r[0] = rule("r", needs_c, prio[0], (uintptr_t)m); r[1] = rule("s", no_b_with_c, prio[1], (uintptr_t)m);
        ff.info = &f; m[3].set_features({&ff, 1}); tc.name = dnmx_make_sv_str("t"); tc.matches = of_any;
        for (auto& x : m) { x.init = [](const dnmx_mixin_info*, void*) -> dnmx_error_return_t { return 0; }; x.destroy = nullptr; }
        for (int i = 0; i < 5; ++i) if (i != 3) d.register_mixin(m[i]);
        list b{m + 1}, c{m + 2}, e{m + 4}, ab{m, m + 1};
        held = std::make_unique<object>(d.get_type(mspan(c))); drop = std::make_unique<object>(d.get_type(mspan(b))); d.get_type(mspan(e));
        if (ruled) d.add_mutation_rule(r[0]);
        if (warm) { list q{m + cfg_q}; d.get_type(mspan(q)); d.get_type(mspan(ab)); }
    }
    uint32_t look(uint32_t what) {
        switch (what) {
        case 0: { auto* p = d.get_mixin_info("d"); return p ? 1 + uint32_t(p - m) : 0; }
        case 1: { auto* g = d.get_feature_info("f"); return g == &f ? 2 : g ? 1 : 0; }
        case 2: { auto* c = d.get_type_class("t"); return c == &tc ? 2 : c ? 1 : 0; }
        case 3: { auto* p = d.get_mixin_info(mixin_id{3}); return p ? 1 + uint32_t(p - m) : 0; }
        default: { auto* g = d.get_feature_info(feature_id{0}); return g == &f ? 2 : g ? 1 : 0; }
        }
    }
    res run(uint32_t op) {
        res x;
        switch (op) {
        case O_get: { const mixin_info* q[] = {m + cfg_q}; x.t = &d.get_type(mspan(q, 1)); break; }
        case O_get2: { type_mutation mut(d); mut.mixins.push_back(m); mut.mixins.push_back(m + 1); x.t = &d.get_type(std::move(mut)); break; }
        case O_add: d.add_mutation_rule(r[0]); break;
        case O_remove: d.remove_mutation_rule(r[0]); break;
        case O_add2: d.add_mutation_rule(r[1]); break;
        case O_collect: d.garbage_collect_types(); break;
        case O_register: x.v = tries([&] { d.register_mixin(m[3]); }); break;
        case O_unregister: x.v = tries([&] { d.unregister_mixin(m[4]); }); break;
        case O_look: { x.v = look(cfg_look); break; }
        case O_drop: drop.reset(); break;
        case O_make: made[__c11_atomic_fetch_add(&nmade, 1, __ATOMIC_RELAXED)] = std::make_unique<object>(held->get_type()); break;
        case O_get_e: { const mixin_info* q[] = {m + 4}; x.t = &d.get_type(mspan(q, 1)); break; }
        case O_class: x.v = tries([&] { d.register_type_class(tc); }); break;
        }
        return x;
    }
    uint32_t code(const type& t) { uint32_t c = 0; for (auto* p : t.mixins) c = c * 6 + 1 + uint32_t(p - m); return c; }
    uint32_t code(const type* t) { // of a result, which may be collected since
        if (!t) return 0; uint32_t c = 0xffff; domain_traverse tr(d); tr.traverse_types([&](const type& x) { if (&x == t) c = code(x); }); if (t == &d.get_empty_type()) c = 0; return c;
    }
    // all that can be seen afterwards
    std::vector<uint32_t> outcome(const res* rs, int n) {
        std::vector<uint32_t> o; for (int i = 0; i < n; ++i) { o.push_back(code(rs[i].t)); o.push_back(rs[i].v); }
        std::vector<uint32_t> ts;
        { domain_traverse tr(d); tr.traverse_types([&](const type& t) { ts.push_back(code(t) * 16 + (uint32_t)t.num_objects()); }); }
        std::sort(ts.begin(), ts.end()); o.push_back((uint32_t)ts.size()); o.insert(o.end(), ts.begin(), ts.end());
        for (size_t i = 1; i < ts.size(); ++i) vx_check(ts[i] / 16 != ts[i - 1] / 16, "a domain has one type for a sequence of mixins");
        std::vector<const type*> ans; { domain_traverse tr(d); tr.traverse_type_queries([&](mspan, const type& t) { ans.push_back(&t); }); }
        for (auto* t : ans) vx_check(code(t) != 0xffff, "a stored request leads to a type which exists");
        o.push_back((uint32_t)d.num_mutation_rules()); o.push_back(m[3].id.i); o.push_back(m[4].id.i); o.push_back(f.id.i);
        for (uint32_t i = 0; i < 5; ++i) o.push_back(look(i)); o.push_back(d.get_mixin_info(m[3].id) == m + 3);
        list qs[4] = {{m}, {m + 1}, {m, m + 1}, {m + 4}};
        for (int i = 0; i < (m[4].registered() ? 4 : 3); ++i) o.push_back(code(d.get_type(mspan(qs[i]))));
        return o;
    }
};
#define MAXT 3
static world* W; static uint32_t prog[MAXT][2]; static int nops[MAXT]; static res result[MAXT][2]; static _Atomic(int) now_;
static void thread(void* a) {
    int t = (int)(intptr_t)a;
    for (int i = 0; i < nops[t]; ++i) {
        int from = __c11_atomic_fetch_add(&now_, 1, __ATOMIC_RELAXED); res x = W->run(prog[t][i]);
        x.from = from; x.to = __c11_atomic_fetch_add(&now_, 1, __ATOMIC_RELAXED); result[t][i] = x;
    }
}
// the sequential histories which respect what finished before what
struct op_t { int t, i; }; static std::vector<op_t> ops; static std::vector<uint32_t> seen; static bool explained;
static void orders(std::vector<int>& o, uint32_t used) {
    if (explained) return;
    if (o.size() == ops.size()) {
        world w; res rs[6]; for (int k : o) rs[k] = w.run(prog[ops[k].t][ops[k].i]);
        if (w.outcome(rs, (int)ops.size()) == seen) explained = true;
        return;
    }
    for (int k = 0; k < (int)ops.size(); ++k) {
        if (used >> k & 1) continue; bool ready = true;
        for (int j = 0; j < (int)ops.size(); ++j) if (!(used >> j & 1) && j != k && result[ops[j].t][ops[j].i].to < result[ops[k].t][ops[k].i].from) ready = false;
        if (!ready) continue;
        o.push_back(k); orders(o, used | 1u << k); o.pop_back();
    }
}
extern "C" void vx_main() {
    // part 1: two threads of one operation each; 2: of two and one; 3: three threads
    int nt = PART == 3 ? 3 : 2; nops[0] = PART == 2 ? 2 : 1; nops[1] = PART == 2 && VX_TIER == 2 ? 2 : 1; nops[2] = PART == 3;
    static const uint32_t some[] = {O_get, O_add, O_remove, O_collect, O_get_e, O_drop, O_get2}; // part 2: these; part 3: without the last two
    int count[O_kinds] = {};
    for (int t = 0; t < nt; ++t) for (int i = 0; i < nops[t]; ++i) { prog[t][i] = PART == 1 || VX_TIER == 2 ? vx_pick(O_kinds, "op") : some[vx_pick(PART == 3 ? 5 : 7, "op")]; ++count[prog[t][i]]; }
    if (PART != 2) for (int t = 1; t < nt; ++t) vx_assume(prog[t - 1][0] <= prog[t][0]); // the threads are alike
    vx_assume(count[O_drop] <= 1 && count[O_make] <= 2 && count[O_register] <= 1 && count[O_unregister] <= 1 && count[O_class] <= 1); // what is done to one thing once
    vx_assume(!(count[O_unregister] && count[O_get_e])); // what is requested is registered
    cfg_look = count[O_look] ? vx_pick(5, "looked up") : 0;
    cfg_x = PART == 1 ? vx_pick(2, "needs") : 0; cfg_q = count[O_get] && (PART == 1 || VX_TIER == 2 || PART == 2) ? vx_pick(2, "requested") : 0; warm = vx_flag("warm"); ruled = vx_flag("ruled"); for (auto& p : prio) p = vx_i32("priority");
    W = new world;
    int id[MAXT]; for (int t = 0; t < nt; ++t) id[t] = vx_spawn(thread, (void*)(intptr_t)t);
    for (int t = 0; t < nt; ++t) vx_join(id[t]);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < nops[t]; ++i) ops.push_back({t, i});
    std::vector<res> rs; for (auto& o : ops) rs.push_back(result[o.t][o.i]);
    seen = W->outcome(rs.data(), (int)rs.size()); explained = false;
    std::vector<int> o; orders(o, 0);
    vx_check(explained, "concurrent calls have the results and the effect of the same calls in some order");
    delete W; W = nullptr; ops = {}; seen = {};
    vx_reach("end");
}
