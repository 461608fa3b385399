// what two source files of one program share
#pragma once
#include "lib.hpp"
#include <dynamix/declare_domain.hpp>
#include <dynamix/declare_mixin.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dynamix/globals.hpp>
#include <dynamix/msg/declare_msg.hpp>
#include <dynamix/common_feature_info.hpp>
#include <dynamix/common_mutation_rules.hpp>
DYNAMIX_DECLARE_DOMAIN(dtag); DYNAMIX_DECLARE_DOMAIN(dtag2);
DYNAMIX_DECLARE_MIXIN(class ma); DYNAMIX_DECLARE_MIXIN(struct mb); DYNAMIX_DECLARE_MIXIN(struct mc); DYNAMIX_DECLARE_MIXIN(struct md);
DYNAMIX_DECLARE_TYPE_CLASS(kl);
DYNAMIX_DECLARE_SIMPLE_MSG(hello, int(object&, int)); DYNAMIX_DECLARE_SIMPLE_MSG(bye, int(const object&));
enum { A = 1, B = 2, C = 4, D = 8, K = 16, HELLO = 32, BYE = 64, ALL = 127 };
struct values { bool canon; uint64_t ud; int32_t bid, prio; int ctx; };
inline values& val() { static values v = {vx_bool("canonicalize"), vx_u64("user data"), vx_i32("bid"), vx_i32("priority"), 0}; return v; }
extern unsigned present, gone; // what is defined so far; what main itself unregistered
void check_now(unsigned expect);
const void* others(int); const void* mine(int); // addresses of infos, as both files see them
// stands after a definition: while the program starts and ends, exactly what was defined before is there
struct here { unsigned upto; explicit here(unsigned what) { upto = present |= what; check_now(upto); } ~here() { check_now(upto & ~gone); } };
inline const void* addr(int i) { switch (i) { case 0: return &g::get_domain<dtag>(); case 1: return &g::get_mixin_info<ma>(); case 2: return &g::get_mixin_info<mb>(); case 3: return &g::get_mixin_info<mc>(); case 4: return &g::get_mixin_info<md>(); case 5: return &kl::m_dynamix_type_class; case 6: return &g::get_feature_info_fast<hello>(); case 7: return &g::get_feature_info_safe<hello>(); case 8: return &g::get_feature_info_fast<bye>(); default: return &g::get_domain<dtag2>(); } }
