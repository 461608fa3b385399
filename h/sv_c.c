#include <dnmx/bits/sv.h>
int c_cmp(dnmx_sv a, dnmx_sv b) { return dnmx_sv_cmp(a, b); }
bool c_eq(dnmx_sv a, dnmx_sv b) { return dnmx_sv_eq(a, b); }
bool c_starts(dnmx_sv a, const char* p) { return dnmx_sv_starts_with(a, p); }
const char* c_first(dnmx_sv a, char q) { return dnmx_sv_find_first(a, q); }
const char* c_last(dnmx_sv a, char q) { return dnmx_sv_find_last(a, q); }
dnmx_sv c_str(const char* s) { return dnmx_make_sv_str(s); }
dnmx_sv c_len(const char* s, size_t n) { return dnmx_make_sv_len(s, n); }
dnmx_sv c_be(const char* s, const char* e) { return dnmx_make_sv_be(s, e); }
dnmx_sv c_lit(void) { return dnmx_make_sv_lit("lit\0x"); }
dnmx_sv c_lit0(void) { return dnmx_make_sv_lit(""); }
bool c_null(dnmx_sv a) { return dnmx_sv_is_null(a); }
bool c_empty(dnmx_sv a) { return dnmx_sv_is_empty(a); }
size_t c_length(dnmx_sv a) { return dnmx_sv_len(a); }
