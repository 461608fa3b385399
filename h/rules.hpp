// symbolic mutation rules and a reference for what a request with them gives
#pragma once
#include "lib.hpp"
enum rkind { R_nop, R_add, R_remove, R_needs, R_front, R_rotate, R_error, R_throw, R_kinds };
struct srule {
    uint32_t kind = 0; const mixin_info* x = nullptr; const mixin_info* y = nullptr; int64_t err = 0;
    mutation_rule_info info = {}; char nm[2] = {0, 0};
};
static int rule_log[64]; static int nrule_log; static srule* rule_base;
static bool in_list(const list& l, const mixin_info* m) { for (auto* x : l) if (x == m) return true; return false; }
// the effect on a plain list
static int64_t effect(const srule& r, list& l) {
    switch (r.kind) {
    case R_add: if (!in_list(l, r.x)) l.push_back(r.x); break;
    case R_remove: for (size_t i = 0; i < l.size(); ++i) if (l[i] == r.x) { l.erase(l.begin() + i); break; } break;
    case R_needs: if (in_list(l, r.x) && !in_list(l, r.y)) l.push_back(r.y); break;
    case R_front: for (size_t i = 1; i < l.size(); ++i) if (l[i] == r.x) { l.erase(l.begin() + i); l.insert(l.begin(), r.x); break; } break;
    case R_rotate: if (l.size() > 1) { auto* m = l[0]; l.erase(l.begin()); l.push_back(m); } break;
    case R_error: if (in_list(l, r.x)) return r.err; break;
    case R_throw: if (in_list(l, r.x)) throw user_exc{7}; break;
    }
    return 0;
}
static dnmx_error_return_t apply_srule(dnmx_type_mutation_handle h, uintptr_t ud) {
    srule& r = *(srule*)ud; auto& m = type_mutation::from_c_handle(h)->mixins;
    if (nrule_log < 64) rule_log[nrule_log++] = int(&r - rule_base);
    list l(m.begin(), m.end()); auto e = effect(r, l); m.assign(l.begin(), l.end()); return (dnmx_error_return_t)e;
}
static void make_info(srule& r) { r.info.name = dnmx_make_sv_str(r.nm); r.info.apply = apply_srule; r.info.user_data = (uintptr_t)&r; }
static bool rule_before(const srule* a, const srule* b) {
    return a->info.order_priority != b->info.order_priority ? a->info.order_priority < b->info.order_priority : (uint8_t)a->nm[0] < (uint8_t)b->nm[0];
}
static void sort_rules(std::vector<srule*>& v) { // by priority, then name
    for (size_t i = 1; i < v.size(); ++i) for (size_t j = i; j > 0 && rule_before(v[j], v[j - 1]); --j) { auto* t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
}
struct expected { enum { ok, error, exc, unsettled } what; list l; };
// what a request gives under the given rules (sorted); max_rounds: when to give up
static expected reference(list l, const std::vector<srule*>& sorted, int max_rounds) {
    list q; for (auto* m : l) if (!m->dependency) q.push_back(m);
    bool changed = q.size() != l.size(); l = q;
    for (int round = 0; round < max_rounds; ++round) {
        list before = round == 0 && changed ? list() : l; bool ch = round == 0 && changed;
        list start = l;
        for (auto* r : sorted) {
            try { if (effect(*r, l)) return {expected::error, l}; }
            catch (const user_exc&) { return {expected::exc, l}; }
        }
        (void)before; (void)ch;
        if (l == start) return {expected::ok, l};
    }
    return {expected::unsettled, l};
}
