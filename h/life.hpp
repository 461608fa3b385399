// tracked mixins: every construction, destruction and use of a mixin is checked, any fallible call can be made to fail
#pragma once
#include "lib.hpp"
#include <dynamix/object_of.hpp>
#ifndef NM
#define NM 3
#endif
enum mkind { K_small, K_aligned, K_triv, K_ext, K_alloc, K_kinds }; // K_triv: has no destroy function, so that only its state can be followed
struct lv { char* p; int idx; };
static lv live[64]; static int nlive;
static int n_init[NM], n_copy[NM], n_move[NM], n_casgn[NM], n_masgn[NM], n_destroy[NM];
static uint32_t dflt[NM];            // value a default initialised mixin gets
static int fault_in = -1;            // the n-th fallible call from now fails
static int fault_kind = 0;           // 0: error code, 1: exception
static bool faulted = false; static int ncalls = 0;
static int order_log[64]; static int norder; // constructions: idx + 1, destructions: -(idx + 1)
static uint32_t kind_of[NM];
static bool is_tracked(const mixin_info* i) { return kind_of[i->user_data] != K_triv; }
static size_t tracked(const list& l) { size_t n = 0; for (auto* m : l) n += is_tracked(m); return n; }
static int find_live(const void* p) { for (int i = 0; i < nlive; ++i) if (live[i].p == (const char*)p) return i; return -1; }
static uint32_t& val(void* p) { return *(uint32_t*)p; }
static uint32_t val(const void* p) { return *(const uint32_t*)p; }
static bool fails() {
    ++ncalls;
    if (fault_in >= 0 && fault_in-- == 0) { faulted = true; if (fault_kind == 1) throw user_exc{3}; return true; }
    return false;
}
static void born(const mixin_info* i, void* p) {
    int idx = (int)i->user_data;
    vx_check(((uintptr_t)p & (i->alignment - 1)) == 0, "a mixin is constructed at an aligned address");
    for (int k = 0; k < nlive; ++k) vx_check((char*)p + i->size <= live[k].p || (char*)p >= live[k].p + 4, "no mixin is constructed over a live one");
    if (norder < 64) order_log[norder++] = idx + 1;
    if (!is_tracked(i)) return;
    vx_check(nlive < 64, "harness: room for live mixins"); live[nlive++] = {(char*)p, idx};
}
static void used(const mixin_info* i, const void* p) {
    if (!is_tracked(i)) { vx_check(find_live(p) < 0, "only live mixins are used, by their own functions"); return; }
    int k = find_live(p); vx_check(k >= 0 && live[k].idx == (int)i->user_data, "only live mixins are used, by their own functions");
}
static void died(const mixin_info* i, void* p) {
    used(i, p); int k = find_live(p); live[k] = live[--nlive]; val(p) = 0xdeadbeef; if (norder < 64) order_log[norder++] = -((int)i->user_data + 1);
}
static dnmx_error_return_t f_init(const dnmx_mixin_info* i, void* p) { if (fails()) return 5; born(i, p); ++n_init[i->user_data]; val(p) = dflt[i->user_data]; return 0; }
static dnmx_error_return_t f_copy(const dnmx_mixin_info* i, void* p, const void* s) { used(i, s); if (fails()) return 6; born(i, p); ++n_copy[i->user_data]; val(p) = val(s); return 0; }
static dnmx_error_return_t f_casgn(const dnmx_mixin_info* i, void* p, const void* s) { used(i, p); used(i, s); if (fails()) return 7; ++n_casgn[i->user_data]; val(p) = val(s); return 0; }
static void f_move(const dnmx_mixin_info* i, void* p, void* s) noexcept { used(i, s); born(i, p); ++n_move[i->user_data]; val(p) = val(s); val(s) = 0x30303030; }
static void f_masgn(const dnmx_mixin_info* i, void* p, void* s) noexcept { used(i, p); used(i, s); ++n_masgn[i->user_data]; uint32_t v = val(s); val(s) = 0x30303030; val(p) = v; }
static void f_destroy(const dnmx_mixin_info* i, void* p) noexcept { ++n_destroy[i->user_data]; died(i, p); }
static bool f_equals(const dnmx_mixin_info* i, const void* a, const void* b) noexcept { used(i, a); used(i, b); return val(a) == val(b); }
static int f_compare(const dnmx_mixin_info* i, const void* a, const void* b) noexcept { used(i, a); used(i, b); return val(a) < val(b) ? -1 : val(a) > val(b); }
// the allocator of mixins of kind K_alloc
struct malloc_t final : mixin_allocator {
    checked_resource mem{"mixin"}; const mixin_info* own = nullptr;
    byte_t* alloc_mixin_buf(const mixin_info& i) override { vx_check(!own || &i == own, "a mixin allocator is asked for its own mixin"); return (byte_t*)mem.allocate(i.obj_buf_size, i.obj_buf_alignment_and_mixin_offset); }
    void dealloc_mixin_buf(byte_t* p, const mixin_info& i) noexcept override { vx_check(!own || &i == own, "a mixin allocator gets its own mixin back"); mem.deallocate(p, i.obj_buf_size, i.obj_buf_alignment_and_mixin_offset); }
};
static void make(mixin_info* m, const uint32_t* kinds, mixin_allocator* alloc) {
    static const char* names[] = {"a", "b", "c", "d", "e"};
    for (int i = 0; i < NM; ++i) {
        m[i] = dnmx_make_mixin_info(); auto& x = m[i]; uint32_t k = kinds[i]; kind_of[i] = k;
        x.name = dnmx_make_sv_str(names[i]); x.user_data = (uintptr_t)i;
        static const uint32_t size[] = {4, 44, 12, 12, 20}, al[] = {4, 32, 4, 4, 16};
        dnmx_set_mixin_info_size_and_alignment(&x, size[k], al[k]);
        x.init = f_init; x.destroy = k == K_triv ? nullptr : f_destroy; x.copy_init = f_copy; x.copy_asgn = f_casgn; x.move_asgn = f_masgn; x.compare = f_compare; x.equals = f_equals;
        x.move_init = k == K_ext ? nullptr : f_move;
        if (k == K_alloc) x.allocator = alloc->to_c_hanlde();
    }
}
// what an object should be: its mixins and their values
struct model { list l; uint32_t v[NM]; const void* at[NM]; };
static bool in_model(const model& x, const mixin_info* m) { for (auto* y : x.l) if (y == m) return true; return false; }
static int idx_of(const mixin_info* m) { return (int)m->user_data; }
static void note(const object& o, model& x) { // takes over the object's current contents
    x.l.assign(o.get_type().mixins.begin(), o.get_type().mixins.end());
    for (auto* m : x.l) { x.at[idx_of(m)] = o.get(*m); x.v[idx_of(m)] = val(o.get(*m)); }
}
static void set_values(object& o, const char* what) { for (auto* m : o.get_type().mixins) val(o.get(*m)) = vx_u32(what); }
// the object has exactly these mixins, alive, with these values, where they know their owner
static void verify(const object& o, const model& x, bool same_place = false) {
    vx_check(same(o.get_type().mixins, x.l), "the object has exactly the expected mixins");
    vx_check(o.empty() == x.l.empty() && o.num_mixins() == x.l.size(), "the object is empty exactly without mixins");
    for (auto* m : x.l) {
        const void* p = o.get(*m); int i = idx_of(m), k = find_live(p);
        vx_check(p && (is_tracked(m) ? k >= 0 && live[k].idx == i : k < 0), "each mixin of the object is alive");
        vx_check(val(p) == x.v[i], "each mixin has the expected state");
        vx_check(object_of(p) == &o, "each mixin knows its object");
        if (same_place) vx_check(p == x.at[i], "each mixin stays at its address");
    }
}
static list pick_type(const mixin_info* m, uint32_t n, uint32_t maxn, const char* what) { // like pick_seq, one path per sequence
    list r; uint32_t len = vx_pick(maxn + 1, what); uint32_t c[NM];
    for (uint32_t i = 0; i < len; ++i) { c[i] = vx_pick(n, what); for (uint32_t j = 0; j < i; ++j) vx_assume(c[j] != c[i]); r.push_back(m + c[i]); }
    return r;
}
