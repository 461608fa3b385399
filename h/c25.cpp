// C25: object memory
#include "lib.hpp"
#include <dynamix/object_of.hpp>
#include <cstring>
#define N 3
static int nlive;
static dnmx_error_return_t g_init(const dnmx_mixin_info* i, void* p) {
    vx_check(((uintptr_t)p & (i->alignment - 1)) == 0, "aligned when constructed"); memset(p, (int)i->user_data, i->size); ++nlive; return 0; }
static void g_move(const dnmx_mixin_info* i, void* p, void* s) noexcept { vx_check(((uintptr_t)p & (i->alignment - 1)) == 0, "aligned when moved"); memcpy(p, s, i->size); memset(s, 0xEE, i->size); ++nlive; }
static void g_destroy(const dnmx_mixin_info* i, void* p) noexcept { memset(p, 0xDD, i->size); --nlive; }
static dnmx_error_return_t g_copy(const dnmx_mixin_info* i, void* p, const void* s) { vx_check(((uintptr_t)p & (i->alignment - 1)) == 0, "aligned when copied"); memcpy(p, s, i->size); ++nlive; return 0; }
static void look(const object& o, const checked_resource& mem) {
    auto& t = o.get_type();
    for (auto* m : t.mixins) {
        const void* p = o.get(*m); auto* b = mem.holds(p, m->size);
        vx_check(b && b->a >= m->alignment, "a mixin lies wholly inside memory allocated with its alignment");
        vx_check(((uintptr_t)p & (m->alignment - 1)) == 0, "a mixin is aligned");
        vx_check((uintptr_t)p - sizeof(void*) >= (uintptr_t)b->p && ((uintptr_t)p & (alignof(void*) - 1)) == 0, "so is its owner pointer");
        vx_check(object_of(p) == &o, "the owner lookup gives the object");
        for (uint32_t k = 0; k < m->size; ++k) vx_check(((const uint8_t*)p)[k] == (uint8_t)m->user_data, "no mixin shares memory with another or with bookkeeping");
    }
}
extern "C" void vx_main() {
    mixin_info m[N] = {plain("a"), plain("b"), plain("c")};
    if (vx_pick(2, "part") == 0) { // the layout of types for any sizes
        for (int i = 0; i < N; ++i) {
            static const uint32_t als[] = {1, 4, 8, 16, 64, 2, 32}; uint32_t al = als[vx_pick(VX_TIER == 2 ? 7 : 5, "align")], sz = vx_u32("size"); vx_assume(sz < (VX_TIER == 2 ? 1u << 20 : 1u << 12));
            dnmx_set_mixin_info_size_and_alignment(&m[i], sz, al); bool ext = i == 1 && vx_flag("external"); m[i].move_init = ext ? nullptr : g_move; }
        domain dom("d"); for (auto& x : m) dom.register_mixin(x);
        list q = {&m[0], &m[1], &m[2]}; const type& t = dom.get_type(q);
        const uint32_t A = t.object_buffer_alignment, P = (uint32_t)alignof(void*);
        vx_check((A & (A - 1)) == 0 && A >= P, "the alignment of the object buffer is a power of two, and good for pointers");
        uint32_t at = N * (uint32_t)sizeof(object_mixin_data); bool aligned = true, apart = true, good = true;
        for (int i = 0; i < N; ++i) {
            if (!m[i].move_init) continue;
            const uint32_t off = t.mixin_offsets[i];
            aligned &= ((off & (m[i].alignment - 1)) | (off & (P - 1))) == 0; good &= A >= m[i].alignment;
            apart &= off >= at + sizeof(void*); at = off + m[i].size; apart &= at >= off;
        }
        apart &= at <= t.object_buffer_size;
        vx_check(good, "the object buffer is aligned for its mixins"); vx_check(aligned, "mixins are at aligned places in the object buffer");
        vx_check(apart, "mixins have room for their owner pointers, after bookkeeping and apart from each other, and end inside the buffer");
        vx_reach("layout");
    } else { // real objects
        static const uint32_t sz[] = {1, 8, 13, 40, 3}, al[] = {1, 8, 4, 32, 64};
        uint32_t nn = VX_TIER == 2 ? 5 : 4;
        for (int i = 0; i < N; ++i) { uint32_t k = vx_pick(nn, "shape"); if (VX_TIER == 1 && k == 3) k = 3 + (i & 1);
            dnmx_set_mixin_info_size_and_alignment(&m[i], sz[k], al[k]); bool ext = i < 2 && vx_flag("external"); m[i].user_data = 0x11u * (i + 1);
            m[i].init = g_init; m[i].destroy = g_destroy; m[i].copy_init = g_copy; m[i].move_init = ext ? nullptr : g_move; }
        domain dom("d"); for (auto& x : m) dom.register_mixin(x); checked_resource mem; allocator alloc(&mem);
        static const int orders[][3] = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}}; auto& od = orders[vx_pick(3, "order")]; list q = {&m[od[0]], &m[od[1]], &m[od[2]]};
        const type &t3 = dom.get_type(q), &t2 = dom.get_type(list{&m[od[2]], &m[od[1]]});
        { object o(t2, alloc); look(o, mem); o.reset_type(t3); look(o, mem); object p(std::move(o)); look(p, mem); object c = p.copy(alloc); look(c, mem); look(p, mem);
          p.reset_type(t2); look(p, mem); o = std::move(c); look(o, mem); look(p, mem); vx_check(nlive == 5, "all are alive"); }
        vx_check(nlive == 0 && mem.nlive == 0, "nothing is left"); vx_reach("objects");
    }
    vx_reach("end");
}
