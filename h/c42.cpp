// C42: global definitions
#include "c42.hpp"
#include <dynamix/define_domain.hpp>
#include <dynamix/define_mixin.hpp>
#include <dynamix/domain_settings_builder.hpp>
#include <dynamix/msg/define_msg.hpp>
static here g0(0);
class ma { public: int64_t s = 9; };
DYNAMIX_DEFINE_MIXIN(dtag, ma).implements_by<bye>([](const ma* m) { return int(m->s); });
static here g1(A);
DYNAMIX_DEFINE_DOMAIN(dtag, "glob", domain_settings_builder().canonicalize_types(val().canon), val().ud, &val().ctx);
DYNAMIX_DEFINE_SIMPLE_MSG(hello, unicast);
struct mc { char c = 'c'; };
DYNAMIX_DEFINE_MIXIN(dtag, mc).on_mutation(attaches_to<ma>());
static here g2(C);
extern "C" void vx_main() {
    domain& d = g::get_domain<dtag>(); check_now(A | B | C | D | K);
    vx_check(d.name() == "glob" && d.settings().canonicalize_types == val().canon && d.user_data == val().ud && d.context == &val().ctx && g::get_domain<dtag2>().name() == "two", "a domain is made of what was given");
    for (int i = 0; i < 10; ++i) vx_check(addr(i) == others(i), "one info in the whole program"); vx_check(addr(6) == addr(7), "however it is reached");
    for (int i = 1; i < 4; ++i) vx_check(d.get_mixin_info(std::string_view(i == 1 ? "ma" : i == 2 ? "mb" : "mc")) == addr(i), "which is the registered one"); vx_check(g::get_domain<dtag2>().get_mixin_info("md") == addr(4) && d.get_type_class("kl") == addr(5) && d.get_feature_info("hello") == addr(6) && d.get_feature_info("bye") == addr(8), "which is the registered one");
    auto& b = g::get_mixin_info<mb>(); vx_check(b.user_data == val().ud && b.num_features == 1 && b.features[0].bid == val().bid && b.features[0].priority == val().prio && g::get_mixin_info<mc>().dependency, "as it was built");
    static std::unique_ptr<object> last; // dies before what it is made of
    uint32_t what = vx_pick(4, "what"); bool keep = false;
    if (what > 0) {
        auto o = std::make_unique<object>(d); int a = vx_i32("a"); vx_assume(a < 1000000); bool both = what > 1;
        if (both) mutate(*o, mutate_ops::add<mb>(), mutate_ops::add<ma>()); else mutate(*o, mutate_ops::add<mb>());
        vx_check(o->has<mb>() && o->has<ma>() == both && o->has<mc>() == both, "types of defined mixins, with their rules"); vx_check(hello::call(*o, a) == 5 + a && bye::call(*o) == (both ? 9 : 2), "messages of defined features"); vx_check(o->is_of<kl>() == both && o->is_of("kl") == both, "classes");
        if (both) { vx_check(o->get<mc>()->c == 'c', "constructed"); auto m = o->get_type().mixins; vx_check(m[0] == (val().canon ? addr(1) : addr(2)), "in the order of the domain"); }
        keep = vx_flag("keep"); if (keep) last = std::move(o);
    }
    if (!keep) { if (vx_flag("unregister")) { auto& m = const_cast<mixin_info&>(g::get_mixin_info<mb>()); d.unregister_mixin(m); gone |= B; check_now(A | C | D | K); vx_reach("early"); } d.unregister_type_class(kl::m_dynamix_type_class); gone |= K; }
    vx_reach("end");
}
