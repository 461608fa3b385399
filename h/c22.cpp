// C22: caching never shows
#include "rules.hpp"
#define STEPS (VX_TIER == 2 ? 5 : 4)
extern "C" void vx_main() {
    uint32_t conf = vx_pick(3, "config"); // plain, with a dependency, canonicalizing
    mixin_info m[3] = {plain("a"), plain("b"), plain("d")}, m2[3]; m[2].dependency = conf == 1;
    // one rule of any kind on any mixins, and one which may add to what it sees
    srule r[2]; rule_base = r; uint32_t x[2], y[2]; static const uint32_t kinds[] = {R_needs, R_remove, R_throw}; 
    r[0].kind = kinds[vx_pick(3, "kind")]; x[0] = vx_choose(3, "x"); y[0] = r[0].kind == R_needs ? vx_choose(3, "y") : 0;
    r[1].kind = R_needs; x[1] = 0; y[1] = 1;
    for (int i = 0; i < 2; ++i) { r[i].x = m + x[i]; r[i].y = m + y[i]; r[i].nm[0] = (char)('r' + i); make_info(r[i]); }
    domain_settings st = {}; st.canonicalize_types = conf == 2;
    domain dom("d", st); bool reg[3]; int cnt[2] = {0, 0};
    for (int i = 0; i < 3; ++i) { dom.register_mixin(m[i]); reg[i] = true; }
    int types = 0; list Q = pick_seq(m, 3, 2, "seq"), other = {m + 2}; // two requests between which the history alternates
    for (int s = 0; s < STEPS; ++s) {
        uint32_t op = s == STEPS - 1 ? 0 : vx_pick(s == 0 ? 2 : 6, "op");
        switch (op) {
        case 1: { uint32_t i = vx_pick(2, "rule"); dom.add_mutation_rule(r[i].info); ++cnt[i]; break; }
        case 2: { uint32_t i = vx_pick(2, "rule"); dom.remove_mutation_rule(r[i].info); if (cnt[i]) --cnt[i]; break; }
        case 3: { uint32_t i = vx_pick(3, "mixin"); if (reg[i]) dom.unregister_mixin(m[i]); else { if (conf == 1 && i == 2) m[i].dependency = vx_flag("dependency"); dom.register_mixin(m[i]); } reg[i] = !reg[i]; break; } // what comes back may be another one at the same place
        case 4: dom.garbage_collect_types(); break;
        case 5: case 0: {
            list q = s == STEPS - 1 || vx_flag("same") ? Q : other; const type* t = nullptr; thrown e = tries([&] { t = &dom.get_type(q); });
            // a fresh domain
            for (int i = 0; i < 3; ++i) { m2[i] = m[i]; m2[i].id = dnmx_mixin_id{dnmx_invalid_id}; m2[i].dom = nullptr; }
            srule r2[2]; domain fresh("f", st);
            for (int i = 0; i < 3; ++i) if (reg[i]) fresh.register_mixin(m2[i]);
            for (int i = 0; i < 2; ++i) { r2[i].kind = r[i].kind; r2[i].x = m2 + x[i]; r2[i].y = m2 + y[i]; r2[i].nm[0] = r[i].nm[0]; make_info(r2[i]); r2[i].info.order_priority = r[i].info.order_priority; rule_base = r2; if (cnt[i]) fresh.add_mutation_rule(r2[i].info); }
            vx_check(dom.num_mutation_rules() == fresh.num_mutation_rules(), "rules active are those added more often than removed");
            list q2; for (auto* p : q) q2.push_back(m2 + (p - m));
            const type* t2 = nullptr; thrown e2 = tries([&] { t2 = &fresh.get_type(q2); });
            rule_base = r;
            vx_check(e == e2, "the request fails exactly when it would in a fresh domain");
            if (t) {
                list got(t->mixins.begin(), t->mixins.end()), want; for (auto* p : t2->mixins) want.push_back(m + (p - m2));
                vx_check(got == want, "the request gives what a fresh domain would give"); ++types;
                for (auto* p : t->mixins) vx_check(dom.get_mixin_info(p->id) == p, "with registered mixins");
                vx_reach("type");
            } else vx_reach("error");
            nrule_log = 0;
            break; }
        }
    }
    if (types > 1) vx_reach("several");
    vx_reach("end");
}
