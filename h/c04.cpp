// C04: external buffers for any size and alignment
#include "vx.h"
#include <dynamix/mixin_info.hpp>
#include <dynamix/common_mixin_info.hpp>
#include <string.h>
using namespace dynamix;
extern "C" { dnmx_mixin_info c_make(void); void c_set(dnmx_mixin_info* i, uint32_t s, uint32_t a); }
static void fits(const mixin_info& i, uint32_t s, uint32_t a) {
    vx_check(i.size == s && i.alignment == a, "size and alignment are recorded unchanged");
    uint64_t bs = i.obj_buf_size, off = i.obj_buf_alignment_and_mixin_offset, al = off;
    vx_check(al != 0 && (al & (al - 1)) == 0, "the buffer alignment is a power of two");
    uint64_t base = vx_u64("base"); vx_assume((base & (al - 1)) == 0 && base < (uint64_t(1) << 48)); // any address so aligned
    uint64_t m = base + off;
    vx_check(a == 0 || (m & (a - 1)) == 0, "the mixin is aligned");
    vx_check(m + s <= base + bs, "the mixin lies inside the buffer");
    vx_check(off >= sizeof(void*) && ((m - sizeof(void*)) & (alignof(void*) - 1)) == 0, "there is room for an aligned pointer before the mixin");
    vx_check(bs - s <= (a > sizeof(void*) ? a : sizeof(void*)), "no waste beyond one alignment or pointer");
}
static void fresh(const mixin_info& i) {
    vx_check(i.id.i == dnmx_invalid_id && !i.registered() && i.dom == nullptr, "a fresh info is unregistered");
    vx_check(i.name.begin == nullptr && i.name.end == nullptr && i.size == 0 && i.alignment == 0, "a fresh info has no name and no size");
    vx_check(!i.init && !i.copy_init && !i.move_init && !i.copy_asgn && !i.move_asgn && !i.destroy && !i.equals && !i.compare && !i.allocator, "a fresh info has no functions");
    vx_check(i.mixin_class == 0 && i.type_info_class == 0 && i.user_data == 0 && i.features == nullptr && i.num_features == 0 && i.features_span().empty() && i.order_priority == 0 && !i.force_external && !i.dependency, "a fresh info is otherwise empty");
    vx_check(i.obj_buf_size == sizeof(void*) && i.obj_buf_alignment_and_mixin_offset == sizeof(void*), "a fresh info has the buffer of an empty mixin");
}
extern "C" void vx_main() {
    mixin_info i = dnmx_make_mixin_info(), j = c_make();
    fresh(i); fresh(j);
    { common_mixin_info k; fresh(k); common_mixin_info n(std::string_view("nm")); vx_check(n.name == std::string_view("nm") && n.id.i == dnmx_invalid_id && n.obj_buf_size == sizeof(void*), "named info"); }
    uint32_t s = vx_u32("size"), k = vx_u8("log2_alignment");
    vx_assume(k < 32);
    uint32_t a = uint32_t(1) << k;
    vx_assume((uint64_t)s + a <= 0xffffffffull && (uint64_t)s + 8 <= 0xffffffffull);
    if (vx_bool("zero_alignment")) { a = 0; s = 0; }
    mixin_info before = i;
    i.set_size_alignment(s, a); fits(i, s, a);
    c_set(&j, s, a); fits(j, s, a);
    before.size = i.size; before.alignment = i.alignment; before.obj_buf_size = i.obj_buf_size; before.obj_buf_alignment_and_mixin_offset = i.obj_buf_alignment_and_mixin_offset;
    vx_check(before.id.i == i.id.i && before.dom == i.dom && before.name.begin == i.name.begin && before.init == i.init && before.move_init == i.move_init && before.features == i.features && before.order_priority == i.order_priority && before.force_external == i.force_external && before.dependency == i.dependency && before.user_data == i.user_data, "nothing else changes");
    // again, with other values: the last one counts
    uint32_t k2 = vx_u8("log2_alignment2"), s2 = vx_u32("size2"); vx_assume(k2 < 31 && s2 < 0x7fffffffu);
    i.set_size_alignment(s2, uint32_t(1) << k2); fits(i, s2, uint32_t(1) << k2);
    // external exactly without move_init, with an allocator or when forced
    mixin_info e = dnmx_make_mixin_info(); bool mv = vx_bool("mv"), fe = vx_bool("fe"), al = vx_bool("al");
    e.move_init = mv ? dnmx_mixin_move_func(uintptr_t(1)) : nullptr; e.force_external = fe; e.allocator = al ? dnmx_mixin_allocator_handle(uintptr_t(8)) : nullptr;
    vx_check(e.external() == (!mv || fe || al), "external");
    vx_reach("end");
}
