// C14: ranking of feature providers
#include "lib.hpp"
#include <dnmx/type.h>
#define K (VX_TIER == 2 ? 4 : 3)
static void pay(void*) {}
static void def(void*) {}
struct prov { bool on; const feature_for_mixin* d; uint32_t mixin; };
// entry e of a type must rank exactly the providers p (given in mixin order)
static void ranked(const dnmx_ftable_entry& e, const prov* p, uint32_t n) {
    uint32_t num = 0; for (uint32_t i = 0; i < n; ++i) num += p[i].on;
    vx_check(e.size() == num && !!e == (num != 0), "as many providers as declarations");
    if (!num) { vx_check(!e.begin && !e.end && !e.top_bid_back, "a feature nobody provides has no providers"); return; }
    for (uint32_t i = 0; i < n; ++i) if (p[i].on) {
        uint32_t found = 0; for (auto* f = e.begin; f != e.end; ++f) if (f->data == p[i].d) { ++found; vx_check(f->mixin_index == p[i].mixin && f->payload == p[i].d->payload, "each with the payload and position of its declaration"); }
        vx_check(found == 1, "each declaration once");
    }
    for (auto* f = e.begin; f + 1 != e.end; ++f) {
        auto &a = *f->data, &b = *f[1].data;
        vx_check((a.bid > b.bid) | ((a.bid == b.bid) & ((a.priority < b.priority) | ((a.priority == b.priority) & (f->mixin_index > f[1].mixin_index)))), "higher bid first, then lower priority number, then later mixin");
    }
    vx_check(e.top_bid_back >= e.begin && e.top_bid_back < e.end, "the end of the top bid group is a provider");
    for (auto* f = e.begin; f != e.end; ++f) vx_check((f->data->bid == e.begin->data->bid) == (f <= e.top_bid_back), "the top bid group is exact");
}
extern "C" void vx_main() {
    const char* nm[] = {"a", "b", "c", "d"};
    bool allow = vx_flag("allow_clashes"), fdef = vx_flag("default");
    feature_info gap = feat("gap"), f = feat("f", allow, fdef ? (dnmx_feature_payload)&def : nullptr), g = feat("g", true), un = feat("un"), unprov = feat("unprovided", false, vx_flag("unprovided_default") ? (dnmx_feature_payload)&def : nullptr);
    mixin_info m[4]; feature_for_mixin d[4][2]; prov pf[4] = {}, pg[4] = {};
    uint32_t n = vx_pick(K + 1, "mixins");
    uint32_t gs = n ? vx_pick(n + 1, "g_from") : 0; // g is declared by the mixins from here on
    for (uint32_t i = 0; i < n; ++i) {
        m[i] = plain(nm[i]); uint32_t c = 0; bool F = vx_flag("has_f"), G = i >= gs, first = i & 1;
        auto addF = [&] { d[i][c] = {&f, (dnmx_feature_payload)((char*)&pay + 0), vx_i32("bid"), vx_i32("priority")}; pf[i] = {true, &d[i][c], i}; ++c; };
        if (F && first) addF();
        if (G) { d[i][c] = {&g, (dnmx_feature_payload)&pay, int32_t(i & 1), 0}; pg[i] = {true, &d[i][c], i}; ++c; }
        if (F && !first) addF();
        m[i].features = d[i]; m[i].num_features = c;
    }
    domain dom("d");
    if (vx_flag("feature_gap")) dom.register_feature(gap);
    dom.register_feature(unprov); // not in the same order as they are met
    for (uint32_t i = n; i-- > 0;) dom.register_mixin(m[i]);
    list q; for (uint32_t i = 0; i < n; ++i) q.push_back(&m[i]);
    bool clash = false, anyF = false, anyG = false;
    for (uint32_t i = 0; i < n; ++i) { anyF |= pf[i].on; anyG |= pg[i].on; for (uint32_t j = 0; j < i; ++j) if (pf[i].on && pf[j].on) clash |= (pf[i].d->bid == pf[j].d->bid) & (pf[i].d->priority == pf[j].d->priority); }
    const type* t = nullptr; thrown e = tries([&] { t = &dom.get_type(q); });
    vx_check((e != T_none) == (clash & !allow), "equal bid and priority is an error exactly when the feature forbids clashes");
    vx_check(e == T_none || e == T_type, "the error is a type error");
    if (e != T_none) { vx_reach("clash"); return; }
    ranked(t->ftable_at(f.id), pf, n); ranked(t->ftable_at(g.id), pg, n);
    ranked(t->ftable_at(unprov.id), pf, 0); ranked(t->ftable_at(un.id), pf, 0); ranked(t->ftable_at(gap.id), pf, 0);
    uint32_t id = vx_u32("id"); if (id != f.id.i && id != g.id.i) ranked(t->ftable_at(feature_id{id}), pf, 0);
    dnmx_type_handle h = t;
    vx_check(t->implements_strong(f) == anyF && t->implements_strong(f.id) == anyF && t->implements_strong("f") == anyF && dnmx_type_implements_strong(h, &f) == anyF && dnmx_type_implements_strong_by_name(h, f.name) == anyF, "strongly implemented exactly when provided");
    vx_check(t->implements_strong(g) == anyG && t->implements_strong("g") == anyG && !t->implements_strong(un) && !t->implements_strong(unprov) && !t->implements_strong("unprovided") && !t->implements_strong("nothing") && !t->implements_strong(""), "strongly implemented exactly when provided");
    vx_check(t->implements(f) == (anyF || fdef) && dnmx_type_implements(h, &f) == (anyF || fdef) && t->implements(g) == anyG && t->implements(unprov) == !!unprov.default_payload && !t->implements(un), "implemented when provided or having a default");
    vx_reach("end");
}
