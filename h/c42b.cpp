#include "c42.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/define_type_class.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/msg/define_msg.hpp>
unsigned present, gone;
void check_now(unsigned e) {
    domain& d = g::get_domain<dtag>(); domain& d2 = g::get_domain<dtag2>();
    struct { const char* n; unsigned bit; domain& d; } ms[] = {{"ma", A, d}, {"mb", B, d}, {"mc", C, d}, {"md", D, d2}};
    for (auto& m : ms) { auto* i = m.d.get_mixin_info(std::string_view(m.n)); vx_check((i != nullptr) == ((e & m.bit) != 0), "a defined mixin is registered from its definition until the program ends, in its domain"); if (i) vx_check(i->dom == m.d.to_c_hanlde() && m.d.get_mixin_info(i->id) == i, "under its id"); }
    vx_check((d.get_type_class("kl") != nullptr) == ((e & K) != 0), "so is a class");
    vx_check(d.num_mutation_rules() == size_t(val().canon) + ((e & C) ? 1 : 0) && d2.num_mutation_rules() == 0, "and what a mixin brings along");
}
static here h0(0);
struct mb { int32_t x = 5; };
DYNAMIX_DEFINE_MIXIN(dtag, mb).implements_by<hello>([](mb* m, int a) { return m->x + a; }, feature_bid_priority(val().bid, val().prio)).user_data(val().ud);
static here h1(B);
DYNAMIX_DEFINE_TYPE_CLASS_WITH(dtag, kl, [](dnmx_type_handle h) noexcept { return type::from_c_handle(h)->has<ma>(); });
static here h2(K);
DYNAMIX_DEFINE_SIMPLE_MSG_EX(bye, unicast, false, [](const object& o) { return o.empty() ? 1 : 2; });
DYNAMIX_DEFINE_DOMAIN(dtag2, "two");
struct md {};
DYNAMIX_DEFINE_MIXIN(dtag2, md);
static here h3(D);
const void* others(int i) { return addr(i); }
