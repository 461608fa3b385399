#include <dnmx/mixin_info_util.h>
#include <string.h>
dnmx_mixin_info c_make(void) { return dnmx_make_mixin_info(); }
void c_set(dnmx_mixin_info* i, dnmx_byte_size_t s, dnmx_byte_size_t a) { dnmx_set_mixin_info_size_and_alignment(i, s, a); }
typedef struct c_mixin { int x; char y; double z; } c_mixin;
void c_common(dnmx_mixin_info* i) { memset(i, 0xa5, sizeof *i); DNMX_COMMON_INIT_MI(*i, c_mixin); }
void c_empty_mi(dnmx_mixin_info* i) { memset(i, 0xa5, sizeof *i); DNMX_COMMON_INIT_EMPTY_MI(*i, "nothing"); }
void c_move_copy(const dnmx_mixin_info* i, void* d, void* s) { dnmx_mixin_common_move_func_copy(i, d, s); }
