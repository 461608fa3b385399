// C05: the common mixin functions and the info initialisers
#include "vx.h"
#include <new>
#include <dynamix/mixin_info_util.hpp>
#include <string.h>
#include <stdlib.h>
#include <utility>
using namespace dynamix;
extern "C" { void c_common(dnmx_mixin_info* i); void c_empty_mi(dnmx_mixin_info* i); void c_move_copy(const dnmx_mixin_info* i, void* d, void* s); }
#define N (VX_TIER == 2 ? 24 : 8)
#define G 2
static uint8_t A[300], B[300], A0[300], B0[300];
static size_t TOT;
static void save() { memcpy(A0, A, TOT); memcpy(B0, B, TOT); }
// every byte of A, B is as expected: in [G, G+n) what f gives, elsewhere unchanged
template <class F, class F2> static void bytes(size_t n, F fa, F2 fb, const char* m1, const char* m2) {
    bool in = true, out = true;
    for (size_t i = 0; i < TOT; ++i) {
        bool inside = i >= G && i < G + n;
        (inside ? in : out) &= A[i] == (inside ? fa(i) : A0[i]);
        (inside ? in : out) &= B[i] == (inside ? fb(i) : B0[i]);
    }
    vx_check(in, m1); vx_check(out, m2);
}
struct Triv { int a; char b; };
struct Ctor { int v; Ctor() : v(42) {} Ctor(const Ctor& o) : v(o.v + 1) {} Ctor(Ctor&& o) noexcept : v(o.v + 2) { o.v = -1; } Ctor& operator=(const Ctor& o) { v = o.v + 3; return *this; } Ctor& operator=(Ctor&& o) noexcept { v = o.v + 4; o.v = -2; return *this; } static int dead; ~Ctor() { dead += v; } };
int Ctor::dead;
struct NoDef { int v; NoDef(int) {} NoDef(const NoDef&) = default; };
struct NoCopy { int v = 7; NoCopy() = default; NoCopy(NoCopy&&) noexcept = default; NoCopy& operator=(NoCopy&&) noexcept = default; };
struct Pinned { int v; Pinned() = default; Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
struct ThrowMove { int v = 1; ThrowMove() {} ThrowMove(const ThrowMove&) {} ThrowMove(ThrowMove&&) noexcept(false) {} ThrowMove& operator=(const ThrowMove&) { return *this; } ThrowMove& operator=(ThrowMove&&) noexcept(false) { return *this; } };
struct Empty {};
struct CopyInitOnly { int v = 3; CopyInitOnly() {} CopyInitOnly(const CopyInitOnly& o) : v(o.v) {} CopyInitOnly& operator=(const CopyInitOnly&) = delete; };
struct MoveAsgnOnly { int v = 3; MoveAsgnOnly() {} MoveAsgnOnly(const MoveAsgnOnly&) = delete; MoveAsgnOnly& operator=(MoveAsgnOnly&& o) noexcept { v = o.v; return *this; } };
struct alignas(64) Wide { char c; };
template <class T> static mixin_info mk() { mixin_info i = dnmx_make_mixin_info(); util::common_init_mixin_info<T>(i); vx_check(i.size == sizeof(T) && i.alignment == alignof(T), "initialiser: size and alignment"); vx_check(!i.equals && !i.compare && !i.name.begin && i.id.i == dnmx_invalid_id, "initialiser leaves the rest"); return i; }
static void common(const mixin_info& i, size_t n, int op) {
    save();
    if (op == 0) { vx_check(dnmx_mixin_common_init_func(&i, A + G) == dnmx_result_success, "init reports success"); bytes(n, [](size_t) { return 0; }, [](size_t k) { return B0[k]; }, "init zeroes the mixin", "init touches nothing else"); }
    else if (op == 1) { vx_check(dnmx_mixin_common_copy_func(&i, A + G, B + G) == dnmx_result_success, "copy reports success"); bytes(n, [](size_t k) { return B0[k]; }, [](size_t k) { return B0[k]; }, "copy copies the mixin", "copy touches nothing else"); }
    else if (op == 2) { dnmx_mixin_common_move_func(&i, A + G, B + G); bytes(n, [](size_t k) { return B0[k]; }, [](size_t) { return 0; }, "move moves the mixin and zeroes the source", "move touches nothing else"); }
    else if (op == 3) { if (vx_flag("c")) c_move_copy(&i, A + G, B + G); else dnmx_mixin_common_move_func_copy(&i, A + G, B + G); bytes(n, [](size_t k) { return B0[k]; }, [](size_t k) { return B0[k]; }, "copying move copies the mixin", "copying move touches nothing else"); }
    else if (op == 4) { dnmx_mixin_common_destroy_func(&i, A + G); bytes(n, [](size_t) { return 0xfe; }, [](size_t k) { return B0[k]; }, "destroy fills the mixin", "destroy touches nothing else"); }
    else if (op == 5) {
        int want = 0; for (size_t k = 0; k < n; ++k) { int d = A[G + k] < B[G + k] ? -1 : A[G + k] > B[G + k] ? 1 : 0; want = want ? want : d; }
        int r = dnmx_mixin_common_cmp_func(&i, A + G, B + G);
        vx_check((r < 0) == (want < 0) && (r > 0) == (want > 0), "compare orders the bytes as unsigned");
        vx_check(dnmx_mixin_common_eq_func(&i, A + G, B + G) == (want == 0), "equals equates exactly the bytes");
        bytes(n, [](size_t k) { return A0[k]; }, [](size_t k) { return B0[k]; }, "comparison changes nothing", "comparison touches nothing else");
    } else {
        vx_check(dnmx_mixin_noop_init_func(&i, A + G) == dnmx_result_success && dnmx_mixin_noop_copy_func(&i, A + G, B + G) == dnmx_result_success && dnmx_mixin_noop_cmp_func(&i, A + G, B + G) == 0, "the no-op functions succeed and compare equal");
        dnmx_mixin_noop_move_func(&i, A + G, B + G);
        bytes(n, [](size_t k) { return A0[k]; }, [](size_t k) { return B0[k]; }, "no-op changes nothing", "no-op touches nothing else");
    }
}
extern "C" void vx_main() {
    uint32_t part = vx_pick(4, "part");
    if (part == 0) { // any bytes
        uint32_t n = vx_pick(N + 1, "n"); TOT = N + 2 * G;
        vx_bytes(A, TOT, "a"); vx_bytes(B, TOT, "b");
        mixin_info i = dnmx_make_mixin_info(); i.set_size_alignment(n, 1);
        common(i, n, vx_pick(7, "op"));
    } else if (part == 1) { // large sizes, one symbolic byte
        static const uint32_t sz[] = {64, 255, 256, 257, 290}; uint32_t n = sz[vx_pick(5, "n")]; TOT = n + 2 * G;
        memset(A, 1, TOT); memset(B, 1, TOT); A[G] = vx_u8("a0"); B[G + n - 1] = vx_u8("bn"); A[G + n] = vx_u8("after"); A[G - 1] = vx_u8("before");
        mixin_info i = dnmx_make_mixin_info(); i.set_size_alignment(n, 8);
        common(i, n, vx_pick(7, "op")); vx_reach("large");
    } else if (part == 2) { // what the initialiser picks for a type
        alignas(64) char m[64], s[64]; memset(m, 0x55, sizeof m); memset(s, 0x55, sizeof s);
        int v = vx_i32("v"); vx_assume(v > -1000000 && v < 1000000);
        { auto i = mk<Triv>(); Triv* t = (Triv*)m; Triv* u = (Triv*)s; vx_check(i.init(&i, m) == 0 && t->a == 0 && t->b == 0, "trivial type: zeroed"); t->a = v;
          vx_check(i.copy_init(&i, s, m) == 0 && u->a == v, "trivial copy init"); u->a = 0; vx_check(i.copy_asgn(&i, s, m) == 0 && u->a == v, "trivial copy assignment"); u->a = 0;
          i.move_init(&i, s, m); vx_check(u->a == v, "trivial move init"); t->a = 1; i.move_asgn(&i, m, s); vx_check(t->a == v, "trivial move assignment"); if (i.destroy) i.destroy(&i, m); }
        { auto i = mk<Ctor>(); Ctor* t = (Ctor*)m; Ctor* u = (Ctor*)s; vx_check(i.init && i.copy_init && i.move_init && i.copy_asgn && i.move_asgn && i.destroy, "every operation present");
          vx_check(i.init(&i, m) == 0 && t->v == 42, "default constructor"); t->v = v;
          vx_check(i.copy_init(&i, s, m) == 0 && u->v == v + 1 && t->v == v, "copy constructor");
          vx_check(i.copy_asgn(&i, s, m) == 0 && u->v == v + 3 && t->v == v, "copy assignment");
          i.move_asgn(&i, s, m); vx_check(u->v == v + 4 && t->v == -2, "move assignment"); t->v = v;
          i.move_init(&i, s, m); vx_check(u->v == v + 2 && t->v == -1, "move constructor");
          Ctor::dead = 0; i.destroy(&i, s); vx_check(Ctor::dead == v + 2, "destructor"); }
        { auto i = mk<NoDef>(); vx_check(!i.init && i.copy_init && !i.destroy, "no default constructor: no init"); }
        { auto i = mk<NoCopy>(); vx_check(i.init && !i.copy_init && !i.copy_asgn && i.move_init && i.move_asgn, "move only"); vx_check(i.init(&i, m) == 0 && ((NoCopy*)m)->v == 7, "member initialiser"); }
        { auto i = mk<Pinned>(); vx_check(i.init && !i.copy_init && !i.copy_asgn && !i.move_init && !i.move_asgn, "neither copied nor moved"); }
        { auto i = mk<ThrowMove>(); vx_check(i.init && i.copy_init && i.copy_asgn && !i.move_init && !i.move_asgn, "a move which may throw is not offered"); }
        { auto i = mk<CopyInitOnly>(); vx_check(i.copy_init && !i.copy_asgn, "copy construction only"); }
        { auto i = mk<MoveAsgnOnly>(); vx_check(!i.copy_init && !i.copy_asgn && !i.move_init && i.move_asgn, "move assignment only"); }
        { auto i = mk<Empty>(); vx_check(i.init && i.copy_init && i.move_init && i.copy_asgn && i.move_asgn, "empty type"); }
        { auto i = mk<Wide>(); vx_check(i.obj_buf_alignment_and_mixin_offset == 64 && i.obj_buf_size == 128, "wide alignment"); }
        { mixin_info i = dnmx_make_mixin_info(); util::common_init_mixin_info<void>(i); memset(m, v, sizeof m); char k = m[3];
          vx_check(i.init(&i, m) == 0 && i.copy_init(&i, m, s) == 0 && i.copy_asgn(&i, m, s) == 0 && i.compare(&i, m, s) == 0 && m[3] == k, "void: nothing happens"); i.move_init(&i, m, s); i.move_asgn(&i, m, s); vx_check(m[3] == k && i.size == 0, "void: nothing happens"); }
        { mixin_info i = dnmx_make_mixin_info(); DYNAMIX_COMMON_INIT_MI(i, Ctor); vx_check(i.name == std::string_view("Ctor") && i.size == sizeof(Ctor) && i.init, "naming macro"); }
        vx_reach("pick");
    } else { // the C initialisers
        struct cm { int x; char y; double z; } a, b; dnmx_mixin_info i;
        c_common(&i); memset(&a, 7, sizeof a); memset(&b, 9, sizeof b); int v = vx_i32("v");
        vx_check(i.name == std::string_view("c_mixin") && i.size == sizeof a && i.alignment == alignof(cm) && i.id.i == dnmx_invalid_id && !i.dom && !i.destroy && !i.compare && !i.equals && !i.allocator && !i.features && i.num_features == 0 && !i.force_external && !i.dependency && i.order_priority == 0, "C initialiser: fields");
        vx_check(i.init(&i, &a) == 0 && a.x == 0 && a.y == 0, "C initialiser: init"); a.x = v;
        vx_check(i.copy_init(&i, &b, &a) == 0 && b.x == v && a.x == v, "C initialiser: copy init"); b.x = 0;
        vx_check(i.copy_asgn(&i, &b, &a) == 0 && b.x == v && a.x == v, "C initialiser: copy assignment"); b.x = 0;
        i.move_init(&i, &b, &a); vx_check(b.x == v, "C initialiser: move init"); i.move_asgn(&i, &a, &b); vx_check(a.x == v, "C initialiser: move assignment");
        c_empty_mi(&i); vx_check(i.name == std::string_view("nothing") && i.size == 0 && i.obj_buf_size == 8 && i.id.i == dnmx_invalid_id && !i.destroy, "C initialiser of empty mixins: fields");
        a.x = v; vx_check(i.init(&i, &a) == 0 && i.copy_init(&i, &a, &b) == 0 && i.copy_asgn(&i, &a, &b) == 0 && i.compare(&i, &a, &b) == 0, "C initialiser of empty mixins: success"); i.move_init(&i, &a, &b); i.move_asgn(&i, &a, &b);
        vx_check(a.x == v, "C initialiser of empty mixins: nothing happens");
        vx_reach("c");
    }
    vx_reach("end");
}
