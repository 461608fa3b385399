// C40: a type is of a class exactly when the class's function says so
#include "lib.hpp"
#include <dynamix/type_class.hpp>
#include <dynamix/declare_type_class.hpp>
#include <dnmx/type.h>
struct seen { dnmx_type_handle h; int who; }; static seen log_[8]; static int nlog; static bool answer[3][4]; static const type* types[4];
static int idx(dnmx_type_handle h) { for (int i = 0; i < 4; ++i) if (types[i] == type::from_c_handle(h)) return i; vx_check(false, "a class is asked about a type there is"); return 0; }
template <int I> static bool is(dnmx_type_handle h) noexcept { if (nlog < 8) log_[nlog++] = {h, I}; return answer[I][idx(h)]; }
struct kl { static const type_class m_dynamix_type_class; };
const type_class kl::m_dynamix_type_class = {dnmx_make_sv_lit("kl"), is<0>};
extern "C" void vx_main() {
    domain d("d"), other("o"); mixin_info m[2] = {plain("a"), plain("b")}; for (auto& x : m) d.register_mixin(x);
    bool late = vx_flag("types first"); char nm[3]; for (auto& c : nm) c = vx_u8("name"); vx_assume(nm[0] != nm[1] || vx_u8("same"));
    type_class tc[3] = {kl::m_dynamix_type_class, {{nm + 1, nm + 2}, is<1>}, {{nm + 2, nm + 3}, is<2>}}; tc[0].name = {nm, nm + 1};
    for (auto& a : answer) for (auto& b : a) b = vx_bool("answer");
    auto mk = [&] { mixin_info* p[2] = {m, m + 1}; types[0] = &d.get_empty_type(); types[1] = &d.get_type(mspan(list{p[0]})); types[2] = &d.get_type(mspan(list{p[1]})); types[3] = &d.get_type(mspan(list{p[1], p[0]})); };
    if (late) mk();
    bool in[3] = {}; const uint32_t N = VX_TIER == 2 ? 4 : 3;
    for (uint32_t i = 0; i < N; ++i) {
        uint32_t op = vx_pick(7, "op"); if (op == 6) break; int k = op % 3;
        if (op < 3) { bool clash = in[k]; for (int j = 0; j < 3; ++j) clash |= in[j] && nm[j] == nm[k]; thrown e = tries([&] { d.register_type_class(tc[k]); }); vx_check((e == T_none) == !clash, "a class is registered unless its name is taken"); if (e == T_none) in[k] = true; }
        else { thrown e = tries([&] { d.unregister_type_class(tc[k]); }); vx_check(e == T_none, "unregistering a class which is not there does nothing"); in[k] = false; }
    }
    if (!late) mk();
    vx_check(nlog == 0, "classes are not asked by registration or creation of types"); size_t nt = d.num_types();
    int t = vx_pick(4, "type"); object o(*types[t]); nlog = 0; bool obj = vx_flag("object"); uint32_t how = vx_pick(3, "how"); int k = 0; bool r = false; thrown e = T_none; char q = vx_u8("asked");
    switch (how) {
    case 0: k = vx_pick(3, "class"); r = obj ? o.is_of(tc[k]) : types[t]->is_of(tc[k]); break; // registered or not
    case 1: r = obj ? o.is_of<kl>() : types[t]->is_of<kl>(); break;
    default: e = tries([&] { std::string_view n(&q, 1); r = obj ? o.is_of(n) : types[t]->is_of(n); }); k = -1; for (int j = 0; j < 3; ++j) if (in[j] && nm[j] == q) k = j; break;
    }
    if (k < 0) { vx_check(e == T_type && nlog == 0, "an unknown name is an error, and nothing is asked"); vx_reach("unknown"); return; }
    vx_check(e == T_none && r == answer[k][t], "a type is of a class exactly when the class says so"); vx_check(nlog > 0, "the class is asked"); for (int i = 0; i < nlog; ++i) vx_check(log_[i].who == k && log_[i].h == types[t], "only that class, about that type");
    vx_check(dnmx_type_is_of(types[t], &tc[k]) == r, "the same in C"); vx_check(d.num_types() == nt, "asking makes no types"); if (how == 2) vx_reach("by name");
    vx_reach("end");
}
