// C03: canonical order of mixins
#include "vx.h"
#include <dynamix/mixin_info.hpp>
using namespace dynamix;
#define K 3
#define L (VX_TIER == 2 ? 3 : 2)
static int nameref(const char* a, uint32_t n, const char* b, uint32_t m) {
    int r = 0;
    for (uint32_t i = 0; i < n || i < m; ++i) {
        int x = i < n ? 1 + (unsigned char)a[i] : 0, y = i < m ? 1 + (unsigned char)b[i] : 0;
        r = r == 0 ? (x < y ? -1 : x > y ? 1 : 0) : r;
    }
    return r;
}
extern "C" void vx_main() {
    mixin_info m[K]; char nm[K][4]; uint32_t len[K];
    bool shared = vx_flag("shared_name_memory");
    for (int i = 0; i < K; ++i) {
        m[i] = dnmx_make_mixin_info();
        vx_bytes(nm[i], 4, "name"); len[i] = vx_pick(L + 1, "len");
        const char* b = shared ? nm[0] : nm[i];
        m[i].name = dnmx_make_sv_len(b, len[i]);
        m[i].order_priority = vx_i32("prio");
        m[i].id.i = vx_u32("id");
    }
    canonical_mixin_order ord;
    bool lt[K][K];
    for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) lt[i][j] = ord(&m[i], &m[j]);
    for (int i = 0; i < K; ++i) vx_check(!lt[i][i], "irreflexive");
    for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) if (i != j) {
        vx_check(lt[i][j] != lt[j][i], "exactly one of a<b and b<a");
        int nr = nameref(shared ? nm[0] : nm[i], len[i], shared ? nm[0] : nm[j], len[j]);
        bool pe = m[i].order_priority == m[j].order_priority;
        bool want = m[i].order_priority < m[j].order_priority || (pe && (nr < 0 || (nr == 0 && m[i].id.i < m[j].id.i)));
        vx_check(lt[i][j] == want || (pe && nr == 0 && m[i].id.i == m[j].id.i), "priority, then name, then id");
        vx_check(dnmx_mixin_canonical_order(&m[i], &m[j]) == lt[i][j], "C and C++ agree");
    }
    vx_check(!(lt[0][1] && lt[1][2]) || lt[0][2], "transitive");
    vx_check(!(lt[1][0] && lt[0][2]) || lt[1][2], "transitive");
    vx_check(!(lt[0][2] && lt[2][1]) || lt[0][1], "transitive");
    vx_reach("end");
}
