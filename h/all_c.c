// every C header, and the functions they define inline, as a C program sees them
#include <dnmx/api.h>
#include <dnmx/basic_domain.h>
#include <dnmx/basic_object.h>
#include <dnmx/basic_type.h>
#include <dnmx/bits/empty_init.h>
#include <dnmx/bits/id_int_t.h>
#include <dnmx/bits/no_sanitize.h>
#include <dnmx/bits/noexcept.h>
#include <dnmx/bits/pp.h>
#include <dnmx/bits/sv.h>
#include <dnmx/domain.h>
#include <dnmx/domain_handle.h>
#include <dnmx/domain_settings.h>
#include <dnmx/error_return.h>
#include <dnmx/feature_for_mixin.h>
#include <dnmx/feature_id.h>
#include <dnmx/feature_info.h>
#include <dnmx/feature_payload.h>
#include <dnmx/mixin_allocator.h>
#include <dnmx/mixin_allocator_handle.h>
#include <dnmx/mixin_common_funcs.h>
#include <dnmx/mixin_id.h>
#include <dnmx/mixin_index.h>
#include <dnmx/mixin_info.h>
#include <dnmx/mixin_info_util.h>
#include <dnmx/msg/msg_macros.h>
#include <dnmx/mutate.h>
#include <dnmx/mutation_rule_info.h>
#include <dnmx/object.h>
#include <dnmx/object_handle.h>
#include <dnmx/object_mixin_data.h>
#include <dnmx/size.h>
#include <dnmx/type.h>
#include <dnmx/type_class.h>
#include <dnmx/type_handle.h>
#include <dnmx/type_mutation.h>
#include <dnmx/type_mutation_handle.h>
dnmx_ftable_entry c_ftable_at(const struct dnmx_basic_type* t, dnmx_feature_id id) { return dnmx_ftable_at(t, id); }
const void* c_get_at(const struct dnmx_basic_object* o, dnmx_mixin_index_t i) { return dnmx_object_unchecked_get_at(o, i); }
void* c_get_mut_at(struct dnmx_basic_object* o, dnmx_mixin_index_t i) { return dnmx_object_unchecked_get_mut_at(o, i); }
bool c_copyable(dnmx_type_handle t) { return dnmx_type_is_copyable(t); }
dnmx_feature_info c_feature_info(void) { return dnmx_make_feature_info(); }
dnmx_sv c_domain_name(dnmx_domain_handle d) { return dnmx_get_domain_name(d); }
uintptr_t c_domain_data(dnmx_domain_handle d) { return dnmx_get_domain_user_data(d); }
void* c_domain_context(dnmx_domain_handle d) { return dnmx_get_domain_context(d); }
