// C11: a canonicalizing domain
#include "lib.hpp"
#include <dynamix/domain_settings_builder.hpp>
#define K 3
static bool before(const mixin_info& a, const mixin_info& b) { // by priority, then by name (one or two characters here)
    if (a.order_priority != b.order_priority) return a.order_priority < b.order_priority;
    size_t n = a.name.end - a.name.begin, m = b.name.end - b.name.begin;
    for (size_t i = 0; i < n && i < m; ++i) if (a.name.begin[i] != b.name.begin[i]) return (unsigned char)a.name.begin[i] < (unsigned char)b.name.begin[i];
    return n < m;
}
extern "C" void vx_main() {
    bool canon = vx_flag("canonicalize");
    mixin_info m[K] = {plain("x"), plain("y"), plain("z")}; char nm[K][2];
    for (int i = 0; i < K; ++i) {
        m[i].order_priority = vx_i32("priority");
        vx_bytes(nm[i], 2, "name"); m[i].name = dnmx_make_sv_len(nm[i], VX_TIER == 2 ? 1 + vx_pick(2, "len") : i == 2 ? 2 : 1);
    }
    vx_assume(nm[0][0] != nm[1][0] || m[0].name.end - m[0].name.begin != m[1].name.end - m[1].name.begin);
    for (int i = 0; i < K; ++i) for (int j = 0; j < i; ++j) vx_assume(before(m[i], m[j]) || before(m[j], m[i]));
    domain dom("d", domain_settings_builder().canonicalize_types(canon).allow_duplicate_mixin_names());
    bool rev = vx_flag("reverse");
    for (int i = 0; i < K; ++i) dom.register_mixin(m[rev ? K - 1 - i : i]);
    list q = pick_seq(m, K, K, "seq");
    const type& t = dom.get_type(q);
    vx_check(t.num_mixins() == q.size(), "all requested mixins and no other");
    for (auto* x : q) vx_check(t.has(*x), "all requested mixins and no other");
    if (canon) {
        for (size_t i = 1; i < t.mixins.size(); ++i) vx_check(before(*t.mixins[i - 1], *t.mixins[i]), "mixins are sorted by canonical order");
        // any other order of the same set
        list p; bool used[K] = {};
        for (size_t i = 0; i < q.size(); ++i) { uint32_t c = vx_pick(uint32_t(q.size() - i), "perm"), j = 0; while (used[j] || c) { if (!used[j]) --c; ++j; } used[j] = true; p.push_back(q[j]); }
        vx_check(&dom.get_type(p) == &t, "the same set in another order gives the same type");
        vx_check(dom.num_types() == (q.empty() ? 0 : 1), "one type per set");
        vx_reach("canonical");
    } else { vx_check(same(t.mixins, q), "the requested order is kept"); vx_reach("as requested"); }
    vx_reach("end");
}
