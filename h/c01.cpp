// C01: comparison of string views against a byte-wise reference
#include "vx.h"
#include <dnmx/bits/sv.h>
extern "C" { int c_cmp(dnmx_sv a, dnmx_sv b); bool c_eq(dnmx_sv a, dnmx_sv b); }
static int ref(dnmx_sv a, dnmx_sv b) { // lexicographic by unsigned bytes, shorter first
    size_t n = a.end - a.begin, m = b.end - b.begin;
    int r = 0;
    for (size_t i = 0; i < n || i < m; ++i) {
        int x = i < n ? 1 + (unsigned char)a.begin[i] : 0, y = i < m ? 1 + (unsigned char)b.begin[i] : 0;
        int d = x < y ? -1 : x > y ? 1 : 0;
        r = r == 0 ? d : r;
    }
    return r;
}
static void compare(dnmx_sv x, dnmx_sv y) {
    int q = ref(x, y);
    int r = dnmx_sv_cmp(x, y), s = dnmx_sv_cmp(y, x), rc = c_cmp(x, y);
    vx_check((r == 0) == (q == 0), "comparison is zero exactly for equal contents");
    vx_check((r < 0) == (q < 0), "comparison has the sign of the lexicographic order");
    vx_check((s < 0) == (r > 0) && (s > 0) == (r < 0), "comparison is antisymmetric");
    vx_check((rc < 0) == (q < 0) && (rc > 0) == (q > 0), "comparison in C agrees");
    vx_check(dnmx_sv_eq(x, y) == (q == 0) && c_eq(x, y) == (q == 0), "dnmx_sv_eq agrees");
    vx_check((x == y) == (q == 0), "operator== agrees");
    vx_check((x != y) == (q != 0), "operator!= agrees");
    vx_check((x < y) == (q < 0), "operator< agrees");
    std::string_view sy(y.begin, y.end - y.begin);
    vx_check((x == sy) == (q == 0) && (sy == x) == (q == 0) && (x != sy) == (q != 0) && (sy != x) == (q != 0), "operators with std::string_view agree");
}
#ifndef N
#define N (VX_TIER == 2 ? 7 : 4)
#endif
extern "C" void vx_main() {
    char a[8], b[8];
    vx_bytes(a, sizeof a, "a"); vx_bytes(b, sizeof b, "b");
    uint32_t kind = vx_pick(4, "kind");
    if (kind == 0) { // separate memory
        uint32_t n = vx_pick(N + 1, "n"), m = vx_pick(N + 1, "m");
        compare(dnmx_sv{a, a + n}, dnmx_sv{b, b + m});
    } else if (kind == 1) { // shared or overlapping memory
        uint32_t i = vx_pick(N, "i"), n = vx_pick(N + 1 - i, "n"), j = vx_pick(N, "j"), m = vx_pick(N + 1 - j, "m");
        compare(dnmx_sv{a + i, a + i + n}, dnmx_sv{a + j, a + j + m});
    } else if (kind == 2) { // null views
        uint32_t n = vx_pick(3, "n");
        compare(dnmx_sv{nullptr, nullptr}, vx_flag("null2") ? dnmx_sv{nullptr, nullptr} : dnmx_sv{a, a + n});
        compare(vx_flag("from_std") ? dnmx_sv::from_std({}) : dnmx_sv{a, a}, dnmx_sv{b, b + n});
        vx_reach("null");
    } else { // long views: equal except at one place, and of lengths around powers of two
        static char big[2][272];
        static const uint32_t len[] = {127, 128, 255, 256, 257};
        uint32_t p = vx_pick(2, "p") ? 254 : 3;
        big[0][p] = a[0]; big[1][p] = b[0];
        compare(dnmx_sv{big[0], big[0] + len[vx_pick(5, "n")]}, dnmx_sv{big[1], big[1] + len[vx_pick(5, "m")]});
        vx_reach("long");
    }
    vx_reach("end");
}
