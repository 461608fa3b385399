// C06: rounding, and the fallback resource and allocator over a recording system allocator
#include "vx.h"
#include <cstdlib>
#include <new>
#include <dynamix/compat/pmr/pmr.hpp>
#if DYNAMIX_HAS_PMR
#error the copy of pmr.hpp made for this harness did not switch the fallback on
#endif
static uint64_t askedA, askedN, freed; static void* given; static int nAlloc, nFree; static bool fail;
extern "C" void* rec_aligned_alloc(size_t a, size_t n) { ++nAlloc; askedA = a; askedN = n; if (fail) return nullptr; given = (void*)(uintptr_t)0x100000; return given; }
extern "C" void rec_free(void* p) { ++nFree; freed = (uintptr_t)p; }
#define aligned_alloc rec_aligned_alloc
#define free rec_free
#define posix_memalign(pp, a, n) (((*(pp) = rec_aligned_alloc(a, n)) == nullptr) ? 12 : 0)
#include <dynamix/compat/pmr/memory_resource.cpp>
#undef aligned_alloc
#undef free
#undef posix_memalign
#include <dynamix/compat/pmr/allocator.hpp>
#include <dynamix/alloc_util.hpp>
using namespace dynamix;
using namespace dynamix::compat::pmr;
struct rec_resource final : memory_resource {
    size_t n = 0, a = 0, dn = 0, da = 0; void* dp = nullptr; int na = 0, nd = 0; alignas(64) char mem[64];
    void* do_allocate(size_t bytes, size_t al) override { n = bytes; a = al; ++na; return mem; }
    void do_deallocate(void* p, size_t bytes, size_t al) override { dp = p; dn = bytes; da = al; ++nd; }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
struct alignas(32) Big { char x[96]; };
extern "C" void vx_main() {
    uint32_t part = vx_pick(4, "part");
    if (part == 0) { // rounding: any size to any multiple
        uint32_t s, n; bool small = vx_flag("small");
        if (small) { s = vx_u8("s"); n = vx_u8("n"); vx_assume(n != 0); }
        else { static const uint32_t ns[] = {1, 2, 3, 4, 7, 8, 12, 16, 24, 32, 64, 100, 256, 4096, 65536, 0x80000000u}; n = ns[vx_pick(16, "n")]; s = vx_u32("s"); vx_assume(s <= 0u - n); }
        uint64_t r = util::next_multiple(s, n);
        vx_check(r >= s, "not below the size"); vx_check(r - s < n, "the smallest such"); vx_check(r % n == 0, "a multiple");
        vx_reach("round");
    } else if (part == 1) {
        memory_resource* res = get_default_resource();
        vx_check(res == get_default_resource() && res->is_equal(*res), "one default resource, equal to itself");
        rec_resource other; vx_check(!res->is_equal(other) && !other.is_equal(*res), "equal only to itself");
        size_t n = vx_u64("bytes"); size_t al = size_t(1) << vx_pick(VX_TIER == 2 ? 21 : 13, "log2_alignment");
        fail = vx_flag("fail");
        bool thrown = false; void* p = nullptr;
        try { p = res->allocate(n, al); } catch (const std::bad_alloc&) { thrown = true; }
        if (thrown) {
            bool over = n > (size_t)-1 - (al - 1);
            vx_check(fail || over || n >= ((size_t)1 << 62), "throws bad_alloc only when the system has none"); vx_reach("bad_alloc");
        } else {
            vx_check(!fail, "throws bad_alloc when the system has none");
            vx_check(nAlloc == 1 && p == given, "gives what the system gave");
            vx_check(askedN >= n, "at least the asked size"); vx_check(askedA >= al && askedA % al == 0 && (askedA & (askedA - 1)) == 0, "at least the asked alignment");
            vx_check((askedN & (askedA - 1)) == 0, "the size asked of aligned_alloc is a multiple of the alignment");
            vx_check(nFree == 0, "frees nothing on allocation");
            res->deallocate(p, n, al); vx_check(nFree == 1 && freed == (uintptr_t)p, "frees exactly what it gave out");
            vx_reach("alloc");
        }
    } else if (part == 2) { // the allocator forwards
        rec_resource r, r2; allocator<> a(&r), a2(a), b(&r2); allocator<Big> c(a); allocator<int> d(b);
        vx_check(a.resource() == &r && a2.resource() == &r && c.resource() == &r && d.resource() == &r2, "allocators keep their resource");
        vx_check(a == a2 && a == c && !(a != c) && a != b && c != d && !(c == d) && !(a == b), "allocators equal exactly with the same resource");
        size_t n = vx_u64("n"), al = vx_u64("al");
        void* p = a.allocate_bytes(n, al); vx_check(r.n == n && r.a == al && r.na == 1 && p == r.mem, "allocate_bytes forwards");
        a.deallocate_bytes(p, n, al); vx_check(r.dp == p && r.dn == n && r.da == al && r.nd == 1, "deallocate_bytes forwards");
        p = a.allocate_bytes(n); vx_check(r.n == n && r.a == alignof(std::max_align_t), "default alignment"); a.deallocate_bytes(p, n); vx_check(r.dn == n && r.da == alignof(std::max_align_t), "default alignment");
        size_t k = vx_u32("k"); Big* q = c.allocate(k); vx_check(r.n == k * 96 && r.a == 32, "typed allocation"); c.deallocate(q, k); vx_check(r.dp == q && r.dn == k * 96 && r.da == 32 && r.nd == 3 && r2.na == 0 && r2.nd == 0, "typed deallocation");
        r.deallocate(r.mem, n, al); vx_check(r.dn == n && r.da == al, "resource forwards");
        allocator<> def; vx_check(def.resource() == get_default_resource() && a.select_on_container_copy_construction() == def, "default allocator");
        vx_reach("forward");
    }
    vx_reach("end");
}
