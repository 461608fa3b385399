// C02: construction and search of string views
#include "vx.h"
#include <dnmx/bits/sv.h>
#include <stdlib.h>
#include <string.h>
extern "C" { bool c_starts(dnmx_sv a, const char* p); const char* c_first(dnmx_sv a, char q); const char* c_last(dnmx_sv a, char q);
dnmx_sv c_str(const char* s); dnmx_sv c_len(const char* s, size_t n); dnmx_sv c_be(const char* s, const char* e); dnmx_sv c_lit(void); dnmx_sv c_lit0(void); bool c_null(dnmx_sv a); bool c_empty(dnmx_sv a); size_t c_length(dnmx_sv a); }
#define N (VX_TIER == 2 ? 7 : 4)
static void denotes(dnmx_sv v, const char* p, size_t n, const char* msg) {
    vx_check(v.begin == p && v.end == p + n, msg);
    vx_check(dnmx_sv_len(v) == n && c_length(v) == n, "length");
    vx_check(dnmx_sv_is_empty(v) == (n == 0) && v.empty() == (n == 0) && c_empty(v) == (n == 0), "is empty");
    vx_check(dnmx_sv_is_null(v) == (p == nullptr) && c_null(v) == (p == nullptr), "is null");
    auto s = v.to_std(); vx_check(s.size() == n && s.data() == p, "to_std");
}
extern "C" void vx_main() {
    uint32_t n = vx_pick(N + 1, "n");
    char* h = (char*)malloc(n ? n : 1); // reads outside [h, h+n) are outside the block
    char* one = h;
    if (!n) h = h + 1;
    if (n) vx_bytes(h, n, "view");
    dnmx_sv v{h, h + n};
    uint32_t op = vx_pick(6, "op");
    if (op == 0) {
        denotes(dnmx_make_sv_be(h, h + n), h, n, "from pointers"); denotes(c_be(h, h + n), h, n, "from pointers (C)");
        denotes(dnmx_make_sv_len(h, n), h, n, "from length"); denotes(c_len(h, n), h, n, "from length (C)");
        denotes(dnmx_sv::from_std(std::string_view(h, n)), h, n, "from std::string_view");
        auto l = dnmx_make_sv_lit("lit\0x"); vx_check(dnmx_sv_len(l) == 5 && memcmp(l.begin, "lit\0x", 5) == 0, "literal");
        l = c_lit(); vx_check(dnmx_sv_len(l) == 5 && memcmp(l.begin, "lit\0x", 5) == 0, "literal (C)");
        l = c_lit0(); vx_check(dnmx_sv_len(l) == 0 && !dnmx_sv_is_null(l), "empty literal (C)");
        denotes(dnmx_make_sv_str(nullptr), nullptr, 0, "null C string"); denotes(c_str(nullptr), nullptr, 0, "null C string (C)");
        vx_reach("make");
    } else if (op == 1 || op == 5) { // a C string of at most n characters
        char* s = (char*)malloc(n + 1);
        vx_bytes(s, n + 1, "str"); vx_assume(s[n] == 0);
        size_t len = 0; while (s[len]) ++len;
        if (op == 5) denotes(dnmx_make_sv_str(s), s, len, "from C string"), denotes(c_str(s), s, len, "from C string (C)");
        else {
            uint32_t m = vx_pick(N + 1, "m"); char* w = (char*)malloc(m ? m : 1); char* wf = w; if (!m) w = w + 1; else vx_bytes(w, m, "w");
            dnmx_sv x = m == 0 && vx_flag("null") ? dnmx_sv{nullptr, nullptr} : dnmx_sv{w, w + m};
            bool want = len <= m; for (size_t i = 0; i < len && i < m; ++i) want = want & (w[i] == s[i]);
            vx_check(dnmx_sv_starts_with(x, s) == want, "starts_with"); vx_check(c_starts(x, s) == want, "starts_with (C)");
            vx_reach("prefix"); free(wf);
        }
        free(s);
    } else {
        char q = (char)vx_u8("q");
        dnmx_sv x = n == 0 && vx_flag("null") ? dnmx_sv{nullptr, nullptr} : v;
        const char *f = nullptr, *l = nullptr;
        for (uint32_t i = 0; i < n; ++i) { bool e = h[i] == q; if (e) { if (!f) f = h + i; l = h + i; } }
        if (op == 2) vx_check(dnmx_sv_find_first(x, q) == f && c_first(x, q) == f, "find_first");
        else if (op == 3) vx_check(dnmx_sv_find_last(x, q) == l && c_last(x, q) == l, "find_last");
        else { vx_check((dnmx_sv_find_first(x, q) == nullptr) == (dnmx_sv_find_last(x, q) == nullptr), "both find it or neither"); }
        vx_reach("find");
    }
    free(one);
    vx_reach("end");
}
