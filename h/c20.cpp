// C20: unregistering and garbage collection
#include "lib.hpp"
#include <dynamix/domain_traverse.hpp>
#define STEPS (VX_TIER == 2 ? 5 : 4)
static mixin_info* mm;
static dnmx_error_return_t b_needs_c(dnmx_type_mutation_handle h, uintptr_t) {
    auto& l = type_mutation::from_c_handle(h)->mixins; bool b = false, c = false;
    for (auto* x : l) { b |= x == mm + 1; c |= x == mm + 2; }
    if (b && !c) l.push_back(mm + 2);
    return 0;
}
struct ex { list l; const type* t; };
struct slot { alignas(object) char mem[sizeof(object)]; bool used = false; int t = -1; const type* ty = nullptr; object& o() { return *(object*)mem; } };
static bool has(const list& l, const mixin_info* m) { for (auto* x : l) if (x == m) return true; return false; }
extern "C" void vx_main() {
    mixin_info m[3] = {plain("a"), plain("b"), plain("c")}; mm = m;
    m[1].move_init = nullptr; // external
    domain dom("d"); bool reg[3] = {true, true, true}; for (auto& x : m) dom.register_mixin(x);
    bool rules = vx_flag("rule"); mutation_rule_info r = rule("b needs c", b_needs_c); if (rules) dom.add_mutation_rule(r);
    std::vector<ex> types; slot s[2];
    auto wanted = [&](list q) { if (rules && has(q, m + 1) && !has(q, m + 2)) q.push_back(m + 2); return q; };
    auto ok = [&](const list& q) { for (auto* x : q) if (!reg[x - m]) return false; return true; };
    auto request = [&](const list& q0) -> const type* {
        list q = wanted(q0); const type* t = nullptr; thrown e = tries([&] { t = &dom.get_type(q0); });
        vx_check((e == T_none) == ok(q), "types of registered mixins can be requested at any time");
        if (!t) return nullptr;
        vx_check(same(t->mixins, q), "with the requested mixins");
        if (q.empty()) { vx_check(t == &dom.get_empty_type(), "empty type"); return t; }
        for (auto& x : types) if (x.l == q) { vx_check(x.t == t, "an existing type stays at its address"); return t; }
        types.push_back({q, t}); return t;
    };
    list pool[2] = {pick_seq(m, 3, 2, "seq"), {m + 1}};
    bool dropped = false;
    for (int st = 0; st < STEPS; ++st) {
        switch (vx_pick(7, "op")) {
        case 0: request(pool[vx_pick(2, "which")]); break;
        case 1: { // make or change an object
            slot& k = s[0]; auto* t = request(pool[vx_pick(2, "which")]); if (!t) break;
            if (!k.used) new (k.mem) object(*t); else k.o().reset_type(*t);
            k.used = true; k.ty = t; break; }
        case 2: { // another object
            slot& k = s[1]; auto* t = request(pool[0]); if (!t) break;
            if (!k.used) { new (k.mem) object(*t); k.used = true; k.ty = t; } else { k.o().clear(); k.ty = &dom.get_empty_type(); }
            break; }
        case 3: if (s[0].used) { s[0].o().~object(); s[0].used = false; } break;
        case 4: { uint32_t i = vx_pick(3, "mixin"); if (i == 0 && !reg[0]) break; 
            bool busy = false; for (auto& k : s) if (k.used && has(list(k.ty->mixins.begin(), k.ty->mixins.end()), m + i)) busy = true;
            if (busy) break;
            if (!reg[i]) { dom.register_mixin(m[i]); reg[i] = true; break; }
            dom.unregister_mixin(m[i]); reg[i] = false;
            std::vector<ex> left; for (auto& x : types) if (!has(x.l, m + i)) left.push_back(x);
            if (left.size() != types.size()) { dropped = true; vx_reach("unregistered"); } types = left; break; }
        case 5: { dom.garbage_collect_types();
            std::vector<ex> left; for (auto& x : types) { bool busy = false; for (auto& k : s) busy |= k.used && k.ty == x.t; if (busy) left.push_back(x); }
            if (left.size() != types.size()) { dropped = true; vx_reach("collected"); } types = left; break; }
        case 6: { // move or copy the first object into the second
            if (!s[0].used) break;
            if (s[1].used) { s[1].o().~object(); s[1].used = false; }
            if (vx_flag("copy")) { new (s[1].mem) object(s[0].o().copy()); s[1].ty = s[0].ty; }
            else { new (s[1].mem) object(std::move(s[0].o())); s[1].ty = s[0].ty; s[0].ty = &dom.get_empty_type(); }
            s[1].used = true; break; }
        }
        // the types are exactly the expected ones, where they were
        vx_check(dom.num_types() == types.size(), "exactly the expected types exist");
        { size_t n = 0; domain_traverse tr(dom); tr.traverse_types([&](const type& t) { bool f = false; for (auto& x : types) f |= x.t == &t && same(t.mixins, x.l); vx_check(f, "every type which exists is expected"); ++n; });
          vx_check(n == types.size(), "each type is there once");
          tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type& t) { bool f = &t == &dom.get_empty_type(); for (auto& x : types) f |= x.t == &t; vx_check(f, "no stored query leads to a dropped type"); }); }
        for (auto& x : types) { size_t c = 0; for (auto& k : s) c += k.used && k.ty == x.t; vx_check(x.t->num_objects() == c, "a type counts its objects"); vx_check(same(x.t->mixins, x.l), "a type keeps its mixins"); }
        for (auto& k : s) if (k.used) vx_check(&k.o().get_type() == k.ty, "an object keeps its type");
    }
    for (auto& q : pool) request(q);
    if (dropped) vx_reach("again");
    for (auto& k : s) if (k.used) k.o().~object();
    for (auto& x : types) vx_check(x.t->num_objects() == 0, "no objects are left");
    vx_reach("end");
}
