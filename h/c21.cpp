// C21: mutation rules
#include "rules.hpp"
#define NR VX_TIER == 2 ? 3 : 2
extern "C" void vx_main() {
    mixin_info m[4] = {plain("a"), plain("b"), plain("c"), plain("d")}; m[3].dependency = true;
    domain dom("d"); for (auto& x : m) dom.register_mixin(x);
    uint32_t n = vx_pick((NR) + 1, "rules"); srule r[3]; std::vector<srule*> v; rule_base = r;
    for (uint32_t i = 0; i < n; ++i) {
        r[i].kind = 1 + vx_pick(R_kinds - 1, "kind"); r[i].x = m + vx_choose(4, "x"); r[i].y = m + vx_choose(4, "y"); 
        if (r[i].kind == R_error) { r[i].err = vx_i32("err"); }
        r[i].nm[0] = (char)vx_u8("name"); vx_assume(r[i].nm[0] != 0); make_info(r[i]); r[i].info.order_priority = vx_i32("prio");
        for (uint32_t j = 0; j < i; ++j) vx_assume(r[j].nm[0] != r[i].nm[0] || r[j].info.order_priority != r[i].info.order_priority);
        v.push_back(&r[i]);
    }
    for (auto* x : v) dom.add_mutation_rule(x->info);
    vx_check(dom.num_mutation_rules() == n, "rules added");
    sort_rules(v);
    list q = pick_seq(m, 4, 2, "seq"); bool mut = vx_flag("by_mutation");
    expected ex = reference(q, v, 64);
    bool foreign = false; (void)foreign;
    bool dup = false; for (size_t i = 0; i < ex.l.size(); ++i) for (size_t j = 0; j < i; ++j) dup |= ex.l[i] == ex.l[j];
    vx_check(!dup, "harness: rules make no duplicates");
    nrule_log = 0; size_t nt = dom.num_types(); const type* t = nullptr; thrown e;
    if (mut) e = tries([&] { type_mutation tm(dom); for (auto* x : q) tm.add(*x); t = &dom.get_type(std::move(tm)); });
    else e = tries([&] { t = &dom.get_type(q); });
    // rules were run round after round in order
    vx_check(n == 0 || nrule_log < 60, "harness: room for the log");
    for (int i = 0; i < nrule_log; ++i) vx_check(&r[rule_log[i]] == v[i % n], "rules run in order of priority and name");
    int rounds = n ? (nrule_log + n - 1) / n : 0; vx_check(rounds <= 6, "a bounded number of rounds");
    if (ex.what == expected::ok) {
        if (e == T_none) { vx_check(same(t->mixins, ex.l), "the type is the fixed point of the rules"); vx_reach("settled");
            vx_check(dom.num_types() == (ex.l.empty() ? 0u : 1u), "one type is created");
            nrule_log = 0; vx_check(&dom.get_type(q) == t, "the same request again gives the same type"); }
        else { // only when settling takes longer than the bound: more than the number of rules
            expected ex2 = reference(q, v, (int)n + 1); vx_check(ex2.what == expected::unsettled && e == T_type, "rules which settle within as many rounds as there are rules are not an error"); vx_reach("slow"); }
    } else if (ex.what == expected::error) { vx_check(e == T_type, "an error of a rule fails the request"); vx_reach("rule error"); }
    else if (ex.what == expected::exc) { vx_check(e == T_user, "an exception of a rule goes through"); vx_reach("rule exception"); }
    else { vx_check(e == T_type, "rules which never settle fail the request"); vx_reach("unsettled"); }
    if (e != T_none) vx_check(dom.num_types() == nt && dom.num_type_queries() == 0, "a failed request creates nothing");
    vx_reach("end");
}
