// C10: one type per mixin sequence
#include "lib.hpp"
#define K 3
#define R (VX_TIER == 2 ? 3 : 3)
extern "C" void vx_main() {
    mixin_info m[K] = {plain("a"), plain("b"), plain("c")}, hole = plain("hole");
    domain dom("d");
    // ids need not follow the addresses
    bool rev = vx_flag("reverse"), gap = vx_flag("gap");
    if (gap) dom.register_mixin(hole);
    for (int i = 0; i < K; ++i) dom.register_mixin(m[rev ? K - 1 - i : i]);
    if (gap) dom.unregister_mixin(hole);
    list q[R]; const type* t[R]; size_t distinct = 0;
    vx_check(dom.num_types() == 0, "no types at first");
    for (int r = 0; r < R; ++r) {
        q[r] = pick_seq(m, K, VX_TIER == 2 || r < 2 ? 3 : 2, "seq");
        if (vx_flag("by_mutation")) { type_mutation mut(dom); for (auto* x : q[r]) mut.add(*x); t[r] = &dom.get_type(std::move(mut)); }
        else t[r] = &dom.get_type(q[r]);
        vx_check(same(t[r]->mixins, q[r]) && t[r]->num_mixins() == q[r].size(), "the type has exactly the requested mixins in the requested order");
        vx_check(&t[r]->dom == &dom, "the type belongs to the domain");
        for (size_t i = 0; i < q[r].size(); ++i) vx_check(t[r]->index_of(q[r][i]->id) == i, "the index of each mixin is its position");
        bool seen = q[r].empty();
        for (int p = 0; p < r; ++p) {
            vx_check((q[p] == q[r]) == (t[p] == t[r]), "equal sequences give the same type, different ones different types");
            seen = seen || q[p] == q[r];
        }
        vx_check(q[r].empty() == (t[r] == &dom.get_empty_type()), "the empty sequence gives the empty type");
        if (!seen) ++distinct;
        vx_check(dom.num_types() == distinct, "the number of types counts the distinct sequences");
        vx_check(dom.num_type_queries() <= distinct + 1, "a request is remembered once");
    }
    for (int r = 0; r < R; ++r) vx_check(same(t[r]->mixins, q[r]), "types stay as they are");
    vx_reach("end");
}
