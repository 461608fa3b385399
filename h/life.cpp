// C26-C35: the life of objects; PROP selects the property
#include "life.hpp"
static uint32_t kinds[NM]; static const uint32_t fixed_kinds[4] = {K_small, K_aligned, K_ext, K_alloc};
static void pick_kinds(uint32_t n) { for (int i = 0; i < NM; ++i) kinds[i] = i < (int)n ? vx_pick(K_kinds, "kind") : fixed_kinds[i & 3]; }
static const dnmx_mixin_move_func masgn_or_not[2] = {f_masgn, nullptr}; static const dnmx_mixin_copy_func casgn_or_not[2] = {f_casgn, nullptr}; static const dnmx_mixin_eq_func eq_or_not[2] = {f_equals, nullptr}; static const dnmx_mixin_cmp_func cmp_or_not[2] = {f_compare, nullptr};
static domain_settings canonical(bool c) { domain_settings st = {}; st.canonicalize_types = c; return st; }
struct world {
    bool canon; malloc_t ma; mixin_info m[NM]; domain dom;
    // canon: the domain orders mixins, by any priorities; lacks: any mixin may lack functions which should not matter (1: comparisons and move assignment, 2: copy assignment too)
    world(bool canon = false, int lacks = 0) : canon(canon), dom("d", canonical(canon)) {
        make(m, kinds, &ma);
        for (int i = 0; i < NM; ++i) { auto& x = m[i]; uint32_t l = lacks ? vx_choose(2, "lacks") : 0; if (canon) x.order_priority = vx_i32("prio"); if (lacks) { x.move_asgn = masgn_or_not[l]; x.equals = eq_or_not[l]; x.compare = cmp_or_not[l]; if (lacks > 1) x.copy_asgn = casgn_or_not[l]; } dom.register_mixin(x); }
        for (auto& v : dflt) v = vx_u32("default"); }
    // a type of any sequence of at most maxn of the first n mixins
    list type_of(uint32_t n, uint32_t maxn, const char* what, const mixin_info* first = nullptr, const mixin_info* last = nullptr) {
        list r; uint32_t len = vx_pick(maxn + 1, what); uint32_t c[NM];
        for (uint32_t i = 0; i < len; ++i) { c[i] = vx_pick(n, what); for (uint32_t j = 0; j < i; ++j) vx_assume(canon ? c[j] < c[i] : c[j] != c[i]); r.push_back(m + c[i]); }
        if (first) r.insert(r.begin(), first); if (last) r.push_back(last);
        if (canon) { auto& t = dom.get_type(r); r.assign(t.mixins.begin(), t.mixins.end()); }
        return r;
    }
};
static bool T(int i) { return kind_of[i] != K_triv; }
struct slot { alignas(object) char mem[sizeof(object)]; bool used = false; object& o() { return *(object*)mem; } void drop() { if (used) o().~object(); used = false; } ~slot() { drop(); } };
static void zero_counts() { for (int i = 0; i < NM; ++i) n_init[i] = n_copy[i] = n_move[i] = n_casgn[i] = n_masgn[i] = n_destroy[i] = 0; norder = 0; ncalls = 0; }

#if PROP == 26
#define STEPS (VX_TIER == 2 ? 4 : 3)
// lives of two objects; the model follows what each should contain
static void lives() {
    for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[i & 3]; uint32_t conf = vx_pick(4, "kinds"); if (conf == 1) { kinds[0] = K_alloc; kinds[1] = K_small; kinds[2] = K_aligned; } else if (conf == 2) { kinds[1] = K_triv; }
    world w(conf == 3, 1); checked_resource mem; allocator al(&mem); 
    {
        slot s[2]; model x[2];
        const type* ty[3] = {&w.dom.get_type(w.type_of(3, 2, "type")), &w.dom.get_type(list{&w.m[2], &w.m[0], &w.m[1]}), &w.dom.get_empty_type()};
        auto defaults = [&](model& d, const type& t) { model n; n.l.assign(t.mixins.begin(), t.mixins.end()); for (auto* m : n.l) n.v[idx_of(m)] = in_model(d, m) ? d.v[idx_of(m)] : dflt[idx_of(m)]; d = n; };
        for (int st = 0; st < STEPS; ++st) {
            zero_counts(); int before = nlive; uint32_t a = 0, op;
            if (st == 0) op = 0; else { op = vx_pick(8, "op"); a = vx_pick(2, "object"); }
            slot &p = s[a], &q = s[1 - a]; model &xp = x[a], &xq = x[1 - a];
            switch (op) {
            case 0: { const type& t = *ty[vx_pick(3, "which")]; if (!p.used) { new (p.mem) object(t, al); p.used = true; xp = model(); } else p.o().reset_type(t); defaults(xp, t); break; }
            case 1: if (p.used) { p.o().clear(); xp = model(); } break;
            case 2: if (p.used) { if (!q.used) { new (q.mem) object(p.o().copy(al)); q.used = true; } else q.o().copy_from(p.o()); xq = xp; } break;
            case 3: if (p.used) { if (!q.used) { new (q.mem) object(std::move(p.o())); q.used = true; } else q.o() = std::move(p.o()); xq = xp; xp = model(); } break;
            case 4: p.drop(); xp = model(); break;
            case 5: if (p.used) { // add what is missing, take what is there
                const mixin_info& m = w.m[1]; bool there = p.o().has(m);
                if (there) { mutate(p.o()).remove(m); for (size_t i = 0; i < xp.l.size(); ++i) if (xp.l[i] == &m) xp.l.erase(xp.l.begin() + i); }
                else { mutate(p.o(), add(m)); xp.l.push_back(&m); xp.v[1] = dflt[1]; if (w.canon) xp.l.assign(p.o().get_type().mixins.begin(), p.o().get_type().mixins.end()); }
                break; }
            case 6: if (p.used) { for (auto* m : xp.l) { uint32_t v = vx_u32("state"); val(p.o().get(*m)) = v; xp.v[idx_of(m)] = v; } } break;
            case 7: if (p.used && q.used) { p.o().copy_matching_from(q.o()); for (auto* m : xp.l) if (in_model(xq, m)) xp.v[idx_of(m)] = xq.v[idx_of(m)]; } break;
            }
            size_t n = 0; for (int i = 0; i < 2; ++i) if (s[i].used) { verify(s[i].o(), x[i]); n += tracked(x[i].l); }
            vx_check((size_t)nlive == n, "no mixin is alive but those of the objects");
            int b = 0, d = 0; for (int i = 0; i < NM; ++i) if (T(i)) { b += n_init[i] + n_copy[i] + n_move[i]; d += n_destroy[i]; }
            vx_check(before + b - d == nlive, "every construction is paired with at most one destruction");
            if (op != 2) for (int i = 0; i < NM; ++i) vx_check(n_copy[i] == 0, "nothing is copied unless asked for");
            if (op == 1 || op == 4) vx_check(b == 0, "taking mixins away constructs nothing");
            if (op >= 6) vx_check(b == 0 && d == 0, "assignments construct and destroy nothing");
            // constructions of new mixins follow the order of the type
            if (op == 0 || op == 2) { int last = -1; object& t = op == 0 ? p.o() : q.o(); if ((op == 0 ? p : q).used) for (int i = 0; i < norder; ++i) if (order_log[i] > 0 && n_move[order_log[i] - 1] == 0) { int at = (int)t.get_type().index_of(w.m[order_log[i] - 1].id); vx_check(at > last, "new mixins are constructed in mixin order"); last = at; } }
        }
    }
    vx_check(nlive == 0, "every mixin is destroyed with its object"); vx_check(mem.nlive == 0 && w.ma.mem.nlive == 0, "no memory is leaked");
}
#define MAIN lives()
#elif PROP == 27
static void keeps() {
    bool canon = vx_flag("canonical"); if (canon) for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[(i + 1) & 3]; else pick_kinds(3); world w(canon, 2);
    bool more = !canon && vx_flag("other"); const mixin_info* extra = more ? &w.m[3] : nullptr; list a = w.type_of(3, 3, "from", extra), b = w.type_of(3, VX_TIER == 2 ? 3 : 2, "to", nullptr, extra);
    const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b);
    {
        object o(ta); set_values(o, "state"); model x; note(o, x); zero_counts(); int how = (int)vx_pick(2, "how");
        if (how == 0) o.reset_type(tb); else { object_mutation mu(o, tb); }
        model y; y.l = b;
        for (auto* m : b) { int i = idx_of(m); bool common = in_model(x, m); y.v[i] = common ? x.v[i] : dflt[i]; }
        vx_check(&o.get_type() == &tb, "the object ends with the requested type"); verify(o, y);
        for (int i = 0; i < NM; ++i) {
            bool in_a = in_model(x, w.m + i), in_b = in_model(y, w.m + i);
            vx_check(n_init[i] == (!in_a && in_b) && n_copy[i] == 0 && n_casgn[i] == 0 && n_masgn[i] == 0, "exactly the new mixins are initialised, and none is copied");
            vx_check(T(i) ? n_destroy[i] - n_move[i] == (in_a && !in_b) : n_destroy[i] == 0, "exactly the removed mixins are destroyed");
            if (in_a && in_b && kinds[i] >= K_ext) vx_check(o.get(w.m[i]) == x.at[i] && n_move[i] == 0, "an external mixin which stays keeps its address");
        }
        vx_check((size_t)nlive == tracked(b), "exactly the mixins of the type are alive");
        if (b.empty()) vx_reach("to empty"); if (a.empty()) vx_reach("from empty"); if (a == b) vx_reach("same");
    }
    vx_check(nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
#define MAIN keeps()
#elif PROP == 28
static void failing() {
    pick_kinds(3); world w(false, 2); checked_resource mem; allocator al(&mem);
    list a = w.type_of(3, 2, "from"), b = w.type_of(3, VX_TIER == 2 ? 3 : 2, "to"); const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b);
    {
        uint32_t op = vx_pick(3, "op");
        object o(op == 1 ? w.dom.get_empty_type() : ta, al); set_values(o, "state"); model x; note(o, x); zero_counts();
        int blocks = mem.nlive, mblocks = w.ma.mem.nlive, was = nlive;
        size_t na = ta.num_objects(), nb = tb.num_objects();
        // the fault
        uint32_t f = vx_pick(4, "fault"), k = vx_choose(6, "fail_at"); int missing = -1; mem.count = w.ma.mem.count = 0;
        if (f == 0) { mem.fail_at = (int)k; } else if (f == 1) { fault_kind = (int)vx_pick(2, "throws"); fault_in = (int)k; }
        else if (f == 2) { missing = (int)vx_pick(3, "missing"); w.m[missing].init = nullptr; } else w.ma.mem.fail_at = (int)k;
        thrown e = tries([&] {
            if (op == 0) { if (vx_flag("by_mutation")) object_mutation mu(o, tb); else o.reset_type(tb); }
            else if (op == 1) { object n(tb, al); vx_check((size_t)nlive == was + tracked(b), "a created object has its mixins"); }
            else { slot s; new (s.mem) object(o.copy(al)); s.used = true; vx_check((size_t)nlive == was + tracked(a), "a copied object has its mixins"); }
        });
        bool out = mem.failed || w.ma.mem.failed; mem.fail_at = w.ma.mem.fail_at = fault_in = -1;
        bool lacks = op < 2 && missing >= 0; if (lacks) { lacks = false; for (auto* m : b) lacks |= idx_of(m) == missing && !in_model(x, m); }
        vx_check((e != T_none) == (out || faulted || lacks), "the operation fails exactly when something in it fails");
        vx_check(e == T_none || e == (out ? T_alloc : faulted && fault_kind == 1 ? T_user : T_object), "the error is the one which happened");
        if (e != T_none || op > 0) {
            verify(o, x, true); vx_check((size_t)nlive == (size_t)was, "what was built is destroyed and what was there is not");
            vx_check(mem.nlive == blocks && w.ma.mem.nlive == mblocks, "all memory taken is returned");
            vx_check(ta.num_objects() == na && tb.num_objects() == nb, "object counts are restored");
            for (int i = 0; i < NM; ++i) if (T(i)) vx_check(n_init[i] + n_copy[i] + n_move[i] == n_destroy[i], "each mixin built is destroyed");
            if (e != T_none) vx_reach(out ? "out of memory" : lacks ? "missing" : "error");
        } else vx_reach("success");
        // still usable
        if (missing >= 0) w.m[missing].init = f_init;
        faulted = false; mem.failed = w.ma.mem.failed = false;
        o.reset_type(tb); vx_check(same(o.get_type().mixins, b) && (size_t)nlive == tracked(b), "the object is still usable");
    }
    vx_check(nlive == 0 && mem.nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
// an object changed while an exception is under way
struct changes_on_exit { object& o; const type& t; int how; object* made = nullptr; slot* s;
    ~changes_on_exit() { if (how == 0) o.reset_type(t); else if (how == 1) { object_mutation mu(o, t); } else if (how == 2) { mutate(o).add(*t.mixins[0]); } else { new (s->mem) object(o.copy()); s->used = true; } } };
static void unwinding() {
    pick_kinds(1); world w; const type &t = w.dom.get_type(list{&w.m[0]}), &t1 = w.dom.get_type(list{&w.m[1]}); object o(t1); set_values(o, "state"); model x; note(o, x); slot s;
    int how = (int)vx_pick(4, "how");
    thrown e = tries([&] { changes_on_exit c{o, t, how, nullptr, &s}; throw user_exc{1}; });
    vx_check(e == T_user, "the exception goes on");
    if (how < 2) { vx_check(&o.get_type() == &t, "an operation during unwinding which doesn't fail succeeds"); vx_check(val(o.get(w.m[0])) == dflt[0] && nlive == T(0), "with the new mixins initialised"); }
    else if (how == 2) vx_check(o.has(w.m[0]) && o.has(w.m[1]) && nlive == T(0) + 1, "a gradual mutation during unwinding succeeds");
    else { verify(o, x); verify(s.o(), x); }
    vx_reach("unwinding");
}
#define MAIN if (vx_pick(2, "part")) unwinding(); else failing()
#elif PROP == 29
#define STEPS (VX_TIER == 2 ? 4 : 3)
static void allocs() {
    checked_resource dm("domain"), om[2] = {checked_resource("a"), checked_resource("b")}; malloc_t ma; mixin_info m[NM];
    kinds[0] = vx_pick(2, "kind") ? K_ext : K_aligned; kinds[1] = K_alloc; kinds[2] = K_small; make(m, kinds, &ma); ma.own = &m[1];
    for (auto& v : dflt) v = 7;
    {
        domain dom("d", domain_settings{}, 0, nullptr, allocator(&dm)); for (auto& x : m) dom.register_mixin(x);
        vx_check(dom.get_allocator() == allocator(&dm), "the domain has the given allocator");
        slot s[2]; int own[2] = {0, 0};
        const type* ty[3] = {&dom.get_type(pick_type(m, 3, 2, "type")), &dom.get_type(list{&m[0], &m[1], &m[2]}), &dom.get_empty_type()};
        vx_check(om[0].nlive == 0 && om[1].nlive == 0, "types come from the domain's allocator");
        for (int i = 0; i < 2; ++i) if (ty[i]->num_mixins()) vx_check(dm.holds(ty[i], sizeof(type)), "types come from the domain's allocator");
        int dtotal = dm.total;
        for (int st = 0; st < STEPS; ++st) {
            uint32_t a = st == 0 ? 0 : vx_pick(2, "object"); slot &p = s[a], &q = s[1 - a];
            uint32_t op = st == 0 ? 0 : vx_pick(6, "op"); bool last = st == STEPS - 1; faulted = om[0].failed = om[1].failed = ma.mem.failed = false;
            if (last && vx_flag("fails")) { uint32_t f = vx_pick(3, "fault"); int k = (int)vx_choose(4, "fail_at"); if (f == 0) fault_in = k; else if (f == 1) { om[0].fail_at = om[1].fail_at = k; } else ma.mem.fail_at = k; }
            thrown e = tries([&] { switch (op) {
            case 0: { const type& t = *ty[vx_pick(3, "which")]; int w = (int)vx_pick(2, "resource"); if (!p.used) { new (p.mem) object(t, allocator(&om[w])); p.used = true; own[a] = w; } else p.o().reset_type(t); break; }
            case 1: if (p.used) p.o().clear(); break;
            case 2: if (p.used) { int w = (int)vx_pick(2, "resource"); if (!q.used) { new (q.mem) object(p.o().copy(allocator(&om[w]))); q.used = true; own[1 - a] = w; } else q.o().copy_from(p.o()); } break;
            case 3: if (p.used) { if (!q.used) { new (q.mem) object(std::move(p.o())); q.used = true; own[1 - a] = own[a]; } else q.o() = std::move(p.o()); } break;
            case 4: p.drop(); break;
            case 5: if (p.used) { object_mutation mu(p.o(), *ty[1]); } break;
            } });
            fault_in = om[0].fail_at = om[1].fail_at = ma.mem.fail_at = -1;
            if (e != T_none) vx_reach("failed");
            // every buffer is where it should be
            int want[2] = {0, 0}, wantm = 0;
            for (int i = 0; i < 2; ++i) if (s[i].used) {
                object& o = s[i].o(); auto& r = om[own[i]]; vx_check(o.get_allocator() == allocator(&r), "an object has the given allocator");
                const type& t = o.get_type(); if (t.num_mixins()) ++want[own[i]];
                for (auto* x : t.mixins) {
                    int k = (int)kinds[idx_of(x)]; void* at = o.get(*x);
                    auto* b = k == K_alloc ? ma.mem.holds(at, x->size) : r.holds(at, x->size);
                    vx_check(b, "each mixin lives in memory of its allocator");
                    if (k == K_ext) ++want[own[i]]; if (k == K_alloc) ++wantm;
                    vx_check(b->a >= x->alignment && ((uintptr_t)b->p & (b->a - 1)) == 0, "memory is asked with at least the declared alignment");
                    if (k >= K_ext) vx_check(b->n >= x->obj_buf_size && b->a >= x->obj_buf_alignment_and_mixin_offset, "external mixins get buffers as declared");
                    else vx_check(b->n >= t.object_buffer_size && b->a >= t.object_buffer_alignment, "objects get buffers as declared");
                }
            }
            vx_check(om[0].nlive == want[0] && om[1].nlive == want[1] && ma.mem.nlive == wantm, "each allocator has given exactly what its objects use");
            vx_check(dm.total == dtotal, "objects take nothing from the domain's allocator");
        }
        for (auto& k : s) k.drop();
        vx_check(om[0].nlive == 0 && om[1].nlive == 0 && ma.mem.nlive == 0 && nlive == 0, "everything is returned with the objects");
    }
    vx_check(dm.nlive == 0, "everything is returned with the domain");
}
#define MAIN allocs()
#elif PROP == 31
// every operation which changes shape, on sealed and unsealed objects
static void sealed() {
    kinds[0] = K_small; kinds[1] = K_ext; kinds[2] = K_alloc; world w;
    list a = pick_type(w.m, 3, 2, "from"), b = pick_type(w.m, 3, 2, "to"); const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b), &te = w.dom.get_empty_type();
    bool seal = vx_flag("sealed"), at_once = seal && !a.empty() && vx_flag("at_once");
    {
        object o(ta, {}, at_once), src(tb); if (seal && !at_once) o.seal(); set_values(o, "state"); set_values(src, "state"); model x, y; note(o, x); note(src, y);
        bool src_sealed = vx_flag("source_sealed"); if (src_sealed) src.seal();
        vx_check(o.sealed() == seal && src.sealed() == src_sealed, "an object is sealed exactly when asked");
        uint32_t op = vx_pick(15, "op"); bool refuse = seal; model nx = x, ny = y; bool s_after = seal, ss_after = src_sealed; const void* skip = nullptr; (void)skip;
        auto become = [&](const type& t) { model n; n.l.assign(t.mixins.begin(), t.mixins.end()); for (auto* m : n.l) n.v[idx_of(m)] = in_model(x, m) ? x.v[idx_of(m)] : dflt[idx_of(m)]; nx = n; };
        zero_counts(); thrown e = T_none; bool same_type = &ta == &tb;
        switch (op) {
        case 0: e = tries([&] { o.reset_type(tb); }); become(tb); break;
        case 1: e = tries([&] { o.clear(); }); become(te); break;
        case 2: e = tries([&] { o.reset_type(); }); become(te); break;
        case 3: e = tries([&] { object_mutation mu(o, tb); }); become(tb); break;
        case 4: e = tries([&] { mutate_to(o, tb); }); become(tb); break;
        case 5: e = tries([&] { o.copy_from(src); }); nx = y; if (same_type) refuse = seal && e != T_none; break;
        case 6: e = tries([&] { o = std::move(src); }); nx = y; if (!seal) { s_after = src_sealed; ss_after = false; ny = model(); } break;
        case 7: { const mixin_info& m = w.m[0]; bool there = o.has(m); list l; for (auto* p : a) if (p != &m) l.push_back(p); if (!there) l.push_back(&m); // adds or removes
            e = tries([&] { if (there) mutate(o, remove(m)); else mutate(o, add(m)); }); become(w.dom.get_type(l)); break; }
        case 8: { const mixin_info& m = w.m[1]; bool there = o.has(m); list l; for (auto* p : a) if (p != &m) l.push_back(p); if (!there) l.push_back(&m);
            e = tries([&] { if (there) mutate(o).remove(m); else mutate(o).add(m); }); become(w.dom.get_type(l)); break; }
        // these are fine with sealed objects
        case 9: refuse = false; { object c = o.copy(); vx_check(!c.sealed(), "copying does not transfer the seal"); verify(c, x); } break;
        case 10: refuse = false; e = tries([&] { o.copy_matching_from(src); }); for (auto* m : nx.l) if (in_model(y, m)) nx.v[idx_of(m)] = y.v[idx_of(m)]; break;
        case 11: refuse = false; vx_check(o.equals(o) && o.compare(o) == 0 && o.get_type() == ta && (o.compare(src) == 0) == (src.compare(o) == 0), "a sealed object can be read and compared"); break;
        case 12: refuse = false; { object c = std::move(o); vx_check(c.sealed() == seal, "moving transfers the seal"); verify(c, x); vx_check(!o.sealed() && o.empty(), "a moved-from object is not sealed"); o.reset_type(tb); } s_after = false; become(te); { model n; n.l = b; for (auto* m : b) n.v[idx_of(m)] = dflt[idx_of(m)]; nx = n; } break;
        case 13: refuse = false; if (!src_sealed) { src = std::move(o); vx_check(o.empty() && !o.sealed(), "a moved-from object is not sealed"); ss_after = seal; s_after = false; ny = x; nx = model(); } break;
        case 14: refuse = false; e = tries([&] { o.move_matching_from(src); }); for (auto* m : nx.l) if (in_model(y, m)) { nx.v[idx_of(m)] = y.v[idx_of(m)]; ny.v[idx_of(m)] = 0x30303030; } break;
        }
        if (refuse) {
            // to the type it has is no change of shape: both are fine
            bool noop = op < 9 && op != 5 && op != 6 && e == T_none && same(o.get_type().mixins, a) && nx.l == a;
            if (!noop) vx_check(e == T_object, "a sealed object refuses to change shape with an object error");
            verify(o, x, true); verify(src, y, true); vx_check(o.sealed() && src.sealed() == src_sealed, "a refused operation leaves objects as they were");
            for (int i = 0; i < NM; ++i) vx_check(n_init[i] + n_copy[i] + n_move[i] + n_casgn[i] + n_masgn[i] + n_destroy[i] == 0, "a refused operation touches no mixin");
            vx_reach("refused");
        } else {
            vx_check(e == T_none, "other operations succeed"); verify(o, nx); verify(src, ny); vx_check(o.sealed() == s_after && src.sealed() == ss_after, "seals are as expected");
            if (seal) vx_reach("sealed"); else vx_reach("unsealed");
        }
    }
    vx_check(nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
#define MAIN sealed()
#elif PROP == 32
static void copies() {
    for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[i & 3]; if (vx_flag("kinds")) { kinds[0] = K_alloc; kinds[1] = K_triv; kinds[2] = K_aligned; } if (VX_TIER == 2) pick_kinds(3);
    world w; checked_resource mem; allocator al(&mem); list a = pick_type(w.m, 3, VX_TIER == 2 ? 3 : 2, "source"), b = pick_type(w.m, 3, 2, "target"); if (vx_flag("all")) b = list{&w.m[1], &w.m[0], &w.m[2]};
    const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b);
    {
        object src(ta, al), o(tb, al); set_values(src, "state"); set_values(o, "state"); model x, y; note(src, x); note(o, y); zero_counts();
        int blocks = mem.nlive, mblocks = w.ma.mem.nlive, was = nlive; size_t na = ta.num_objects(), nb = tb.num_objects();
        uint32_t f = vx_pick(5, "fault"), k = vx_choose(5, "fail_at"); int missing = -1, missing_asgn = -1;
        if (f == 1) mem.fail_at = (int)k; else if (f == 2) { fault_kind = (int)vx_pick(2, "throws"); fault_in = (int)k; } else if (f == 3) { missing = (int)vx_pick(3, "missing"); w.m[missing].copy_init = nullptr; } else if (f == 4) { missing_asgn = (int)vx_pick(3, "missing"); w.m[missing_asgn].copy_asgn = nullptr; }
        mem.count = 0; bool from = vx_flag("copy_from"); thrown e; slot s;
        if (!from) e = tries([&] { new (s.mem) object(static_cast<const object&>(src).copy(al)); s.used = true; });
        else e = tries([&] { o.copy_from(src); });
        bool out = mem.failed; mem.fail_at = fault_in = -1;
        bool cannot = false; for (auto* m : a) { int i = idx_of(m); if (!from || !in_model(y, m)) cannot |= i == missing; else cannot |= i == missing_asgn; }
        vx_check((e != T_none) == (out || faulted || cannot), "a copy fails exactly when something in it fails");
        vx_check(e == T_none || e == (out ? T_alloc : faulted && fault_kind == 1 ? T_user : T_object), "the error is the one which happened");
        verify(src, x, true); // the source is never touched
        if (!from) {
            verify(o, y, true);
            if (s.used) { verify(s.o(), x); vx_check(&s.o().get_type() == &ta && s.o().get_allocator() == al, "a copy has the source's type and the given allocator"); for (auto* m : a) vx_check(s.o().get(*m) != src.get(*m), "a copy has its own mixins");
                for (int i = 0; i < NM; ++i) vx_check(n_copy[i] == in_model(x, w.m + i) && n_init[i] + n_destroy[i] + n_casgn[i] == 0, "exactly the source's mixins are copy-constructed"); vx_reach("copy"); }
        } else if (e == T_none) {
            verify(o, x); vx_check(&o.get_type() == &ta, "the target gets the source's type");
            for (int i = 0; i < NM; ++i) { bool in_x = in_model(x, w.m + i), in_y = in_model(y, w.m + i);
                vx_check(n_copy[i] == (in_x && !in_y) && n_casgn[i] == (in_x && in_y) && n_init[i] == 0, "new mixins are copy-constructed, common ones copy-assigned");
                vx_check(T(i) ? n_destroy[i] - n_move[i] == (in_y && !in_x) : n_destroy[i] == 0, "and the rest destroyed");
                if (in_x && in_y && kinds[i] >= K_ext) vx_check(o.get(w.m[i]) == y.at[i], "external common mixins are assigned in place"); }
            vx_reach("copy_from");
        }
        if (e != T_none) {
            if (cannot && !out) { verify(o, y, true); if (from) for (int i = 0; i < NM; ++i) vx_check(n_copy[i] + n_casgn[i] + n_destroy[i] + n_init[i] == 0, "missing functions are found before anything is touched"); vx_reach("cannot"); }
            vx_check(same(o.get_type().mixins, b), "a failed copy keeps the target's type"); model z = y; for (auto* m : b) z.v[idx_of(m)] = val(o.get(*m)); verify(o, z, true);
            for (auto* m : b) vx_check(z.v[idx_of(m)] == y.v[idx_of(m)] || (in_model(x, m) && z.v[idx_of(m)] == x.v[idx_of(m)]), "and only mixins assigned before it failed have changed");
            vx_check(nlive == was && mem.nlive == blocks && w.ma.mem.nlive == mblocks, "a failed copy leaks nothing"); vx_check(ta.num_objects() == na && tb.num_objects() == nb, "object counts are restored");
            vx_reach("failed");
        }
    }
    vx_check(nlive == 0 && mem.nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
#define MAIN copies()
#elif PROP == 33
static void matching() {
    for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[(i + 1) & 3]; if (vx_flag("kinds")) { kinds[0] = K_triv; kinds[1] = K_ext; kinds[2] = K_aligned; }
    world w; list a = pick_type(w.m, 3, VX_TIER == 2 ? 3 : 2, "target"), b = pick_type(w.m, 3, 2, "source"); if (vx_flag("all")) b = list{&w.m[1], &w.m[0], &w.m[2]};
    const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b);
    {
        object o(ta), src(tb); set_values(o, "state"); set_values(src, "state"); model x, y; note(o, x); note(src, y); zero_counts(); int was = nlive;
        uint32_t op = vx_pick(4, "op"); bool can[NM]; bool seal = vx_flag("sealed"); if (seal) o.seal();
        uint32_t lack = vx_choose(8, "lacks"); // assignments which are missing
        for (int i = 0; i < 3; ++i) if (lack >> i & 1) { w.m[i].copy_asgn = nullptr; w.m[i].move_asgn = nullptr; if (op == 3) w.m[i].move_init = nullptr; }
        bool cp = op == 0, fb = op >= 2; if (op == 1 || op == 0) fault_in = cp && vx_flag("fails") ? (int)vx_choose(3, "fail_at") : -1; fault_kind = fault_in >= 0 ? (int)vx_pick(2, "throws") : 0;
        bool must = false; for (int i = 0; i < 3; ++i) { can[i] = cp ? !!w.m[i].copy_asgn : w.m[i].move_asgn || (fb && w.m[i].move_init); if (in_model(x, w.m + i) && in_model(y, w.m + i) && !can[i]) must = true; }
        thrown e = tries([&] { if (cp) o.copy_matching_from(src); else if (op == 1) o.move_matching_from(src); else o.move_matching_from(src, true); });
        fault_in = -1;
        vx_check((e != T_none) == (must || faulted), "an error exactly when a common mixin cannot be assigned");
        vx_check(e == T_none || e == (faulted && fault_kind ? T_user : T_object), "of the right kind");
        if (must) { verify(o, x, true); verify(src, y, true); vx_reach("cannot"); }
        else if (e == T_none) {
            model nx = x, ny = y;
            for (int i = 0; i < NM; ++i) { bool common = in_model(x, w.m + i) && in_model(y, w.m + i);
                if (common) { nx.v[i] = y.v[i]; if (!cp) ny.v[i] = 0x30303030; }
                bool init = !cp && common && !w.m[i].move_asgn;
                vx_check(n_casgn[i] == (cp && common) && n_masgn[i] == (!cp && common && !init) && n_move[i] == init && n_destroy[i] == (init && T(i)) && n_init[i] + n_copy[i] == 0, "exactly the common mixins are assigned, once"); }
            verify(o, nx, true); verify(src, ny, true); vx_reach(cp ? "copied" : "moved");
        } else { for (auto* m : a) vx_check(val(o.get(*m)) == x.v[idx_of(m)] || (in_model(y, m) && val(o.get(*m)) == y.v[idx_of(m)]), "a failing copy changes only common mixins"); verify(src, y, true); vx_reach("failed"); }
        vx_check(&o.get_type() == &ta && &src.get_type() == &tb && nlive == was && o.sealed() == seal, "both objects keep their types");
    }
    vx_check(nlive == 0, "nothing is left");
}
// an object is its own source
static void matching_self() {
    for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[i & 3]; if (vx_flag("kinds")) { kinds[0] = K_triv; kinds[1] = K_ext; kinds[2] = K_aligned; }
    world w; list a = pick_type(w.m, 3, 2, "target"); if (vx_flag("all")) a = list{&w.m[1], &w.m[0], &w.m[2]};
    {
        object o(w.dom.get_type(a)); set_values(o, "state"); model x; note(o, x); int was = nlive; uint32_t op = vx_pick(4, "op"), lack = vx_choose(8, "lacks"); bool must = false;
        for (int i = 0; i < 3; ++i) if (lack >> i & 1) { w.m[i].copy_asgn = nullptr; w.m[i].move_asgn = nullptr; if (in_model(x, w.m + i) && op != 3) must = true; }
        thrown e = tries([&] { if (op == 0) o.copy_matching_from(o); else if (op == 1) o.move_matching_from(o); else if (op == 2) o.copy_from(o); else o.move_matching_from(o, true); });
        vx_check(e == T_none || (must && e == T_object), "a self-assignment can only fail for what cannot be assigned");
        verify(o, x, true); vx_check(nlive == was, "an object assigned from itself stays as it is"); vx_reach("self");
    }
    vx_check(nlive == 0, "nothing is left");
}
#define MAIN if (vx_flag("self")) matching_self(); else matching()
#elif PROP == 34
static void moves() {
    bool canon = vx_flag("canonical"); if (canon) for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[i & 3]; else pick_kinds(VX_TIER == 2 ? 3 : 2); world w(canon, 2); checked_resource mem[2]; list a = w.type_of(3, VX_TIER == 2 ? 3 : 2, "source"), b = w.type_of(3, 2, "target");
    const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b); int ra = 0, rb = (int)vx_pick(2, "resource");
    {
        object src(ta, allocator(&mem[ra])); set_values(src, "state"); model x; note(src, x); bool seal = vx_flag("sealed"); if (seal) src.seal(); int was = nlive;
        uint32_t op = vx_pick(4, "op"); zero_counts(); bool moved = true;
        auto got_all = [&](object& o) {
            verify(o, x, true); vx_check(&o.get_type() == &ta && o.get_allocator() == allocator(&mem[ra]) && o.sealed() == seal, "the destination gets the type, allocator and seal");
            for (int i = 0; i < NM; ++i) vx_check(n_init[i] + n_copy[i] + n_move[i] + n_casgn[i] + n_masgn[i] == 0, "mixins are taken over as they are"); };
        auto is_empty = [&] {
            verify(src, model()); vx_check(src.get_type() == w.dom.get_empty_type() && &src.get_domain() == &w.dom, "the source is empty and in its domain");
            src.reset_type(tb); vx_check(same(src.get_type().mixins, b), "and usable"); src.clear(); vx_check(src.empty(), "and usable"); };
        if (op == 0) { object o(std::move(src)); got_all(o); vx_check(nlive == was, "nothing else is alive"); is_empty(); verify(o, x, true); vx_check(ta.num_objects() == (a.empty() ? 0u : 1u), "one object"); vx_reach("constructed"); }
        else if (op == 1) {
            object o(tb, allocator(&mem[rb])); set_values(o, "state"); model y; note(o, y); zero_counts(); thrown e = tries([&] { o = std::move(src); });
            if (ra == rb) { vx_check(e == T_none, "equal allocators: fine"); got_all(o); for (int i = 0; i < NM; ++i) vx_check(n_destroy[i] == (T(i) && in_model(y, w.m + i)), "what the destination had is destroyed");
                vx_check(mem[1].nlive == 0, "nothing leaks"); is_empty(); verify(o, x, true); vx_reach("assigned"); }
            else { vx_check(e == T_object, "unequal allocators: an object error"); verify(o, y, true); verify(src, x, true); vx_check(o.get_allocator() == allocator(&mem[rb]) && src.get_allocator() == allocator(&mem[ra]) && src.sealed() == seal && !o.sealed(), "which changes nothing"); vx_reach("refused"); }
        } else if (op == 2) { object& r = src; src = std::move(r); verify(src, x, true); vx_check(src.sealed() == seal && nlive == was, "self-move changes nothing"); for (int i = 0; i < NM; ++i) vx_check(n_destroy[i] == 0, "self-move changes nothing"); vx_reach("self"); }
        else { // a chain: there and back again
            object o(std::move(src)); object p(std::move(o)); src = std::move(p); got_all(src); vx_check(o.empty() && p.empty() && nlive == was, "the object went there and back"); if (!seal) { src.reset_type(tb); for (auto* m : b) vx_check(object_of(src.get(*m)) == &src, "owned by the destination"); } vx_reach("chain"); }
        (void)moved;
    }
    vx_check(nlive == 0 && mem[0].nlive == 0 && mem[1].nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
#define MAIN moves()
#elif PROP == 35
static void compares() {
    for (auto& k : kinds) k = K_small; malloc_t ma; mixin_info m[NM]; make(m, kinds, &ma); char nm[3][2] = {};
    if (vx_pick(2, "part") == 0) { // types: priorities and names decide
        for (int i = 0; i < 3; ++i) { nm[i][0] = (char)vx_u8("name"); vx_assume(nm[i][0] != 0); m[i].name = dnmx_make_sv_str(nm[i]); m[i].order_priority = vx_i32("prio"); for (int j = 0; j < i; ++j) vx_assume(nm[i][0] != nm[j][0]); }
        domain dom("d"); for (int i = 0; i < 3; ++i) dom.register_mixin(m[i]);
        list l[3]; const type* t[3]; for (int i = 0; i < 3; ++i) { l[i] = i == 2 && VX_TIER == 1 ? list{&m[1], &m[0]} : pick_type(m, 3, 2, "seq"); t[i] = &dom.get_type(l[i]); }
        auto sgn = [](int c) { return c < 0 ? -1 : c > 0; };
        auto before = [](const mixin_info* a, const mixin_info* b) { return a->order_priority != b->order_priority ? a->order_priority < b->order_priority : (uint8_t)a->name.begin[0] < (uint8_t)b->name.begin[0]; };
        auto ref = [&](const list& a, const list& b) { size_t i = 0; for (; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return before(a[i], b[i]) ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0; };
        int c01 = sgn(t[0]->compare(*t[1])), c10 = sgn(t[1]->compare(*t[0])), c12 = sgn(t[1]->compare(*t[2])), c02 = sgn(t[0]->compare(*t[2]));
        vx_check((c01 == 0) == (t[0] == t[1]), "0 only for the same type"); vx_check(c01 == -c10, "antisymmetric"); vx_check(!(c01 < 0 && c12 < 0) || c02 < 0, "transitive"); vx_check(!(c01 > 0 && c12 > 0) || c02 > 0, "transitive");
        vx_check(c01 == ref(l[0], l[1]) && c02 == ref(l[0], l[2]), "the lexicographic canonical order"); vx_check((*t[0] == *t[1]) == (t[0] == t[1]) && (*t[0] != *t[1]) == (t[0] != t[1]), "operators agree");
        domain d2("o"); const type& e2 = d2.get_empty_type(); int x = t[0]->compare(e2), y = e2.compare(*t[0]); vx_check(x != 0 && sgn(x) == -sgn(y), "types of different domains differ, antisymmetrically");
        object a(*t[0]), b(*t[1]); if (t[0] != t[1]) { vx_check(sgn(a.compare(b)) == c01 && !a.equals(b), "objects order by type first"); vx_reach("types"); }
    } else { // objects of one type
        uint32_t eq = vx_choose(8, "no_equals"), cm = vx_choose(8, "no_compare"); for (int i = 0; i < 3; ++i) { if (eq >> i & 1) m[i].equals = nullptr; if (cm >> i & 1) m[i].compare = nullptr; }
        domain dom("d"); for (int i = 0; i < 3; ++i) dom.register_mixin(m[i]);
        list l = pick_type(m, 3, 3, "seq"); const type& t = dom.get_type(l); object a(t), b(t), c(t); set_values(a, "state"); set_values(b, "state"); set_values(c, "state");
        bool same_v = true, can_eq = true; int want = 0; bool stuck = false;
        for (auto* x : l) { uint32_t u = val(a.get(*x)), v = val(b.get(*x)); bool has_eq = x->equals || x->compare; same_v &= u == v; can_eq &= has_eq; if (!want && !stuck) { if (!x->compare) stuck = true; else want = u < v ? -1 : u > v; } }
        auto sgn = [](int c) { return c < 0 ? -1 : c > 0; };
        vx_check(a.equals(b) == (same_v && can_eq), "equal exactly when all mixins are"); vx_check(a.equals(a) && a.compare(a) == 0, "an object equals itself");
        int r = 0; thrown e = tries([&] { r = a.compare(b); }); vx_check(e == (stuck ? T_object : T_none), "an object error exactly when a needed comparison is missing"); if (e == T_none) vx_check(sgn(r) == want, "the first mixin which differs decides");
        vx_check(a.equals(b) == b.equals(a), "equality is symmetric");
        if (!stuck) { int r2 = 0, bc = 0, ac = 0; thrown e2 = tries([&] { r2 = b.compare(a); }); vx_check(e2 == T_none && sgn(r2) == -sgn(r), "antisymmetric");
            thrown e3 = tries([&] { bc = b.compare(c); ac = a.compare(c); }); if (e3 == T_none) vx_check(!(r < 0 && bc < 0) || ac < 0, "transitive"); vx_reach("compared"); } else vx_reach("missing");
        if (can_eq && !stuck) vx_check(a.equals(b) == (r == 0), "equality agrees with comparison");
    }
}
#define MAIN compares()
#elif PROP == 44
// a mutation done piece by piece: who constructed or updated each mixin, in which order, and what is left when it ends
enum who { W_none, W_default, W_func, W_update }; struct ev { who w; int i; }; static ev evs[32]; static int nevs; static uint32_t funcv[NM], updv[NM];
static void pieces() {
    bool more = VX_TIER == 2; uint32_t conf = vx_pick(more ? 4 : 2, "kinds"); for (int i = 0; i < NM; ++i) kinds[i] = fixed_kinds[(i + conf) & 3]; if (conf == 3) { kinds[0] = K_triv; kinds[1] = K_small; kinds[2] = K_ext; }
    world w(conf == 1); checked_resource mem; allocator al(&mem); mixin_info* m = w.m; list a, b;
    { list from[] = {{}, {m}, {m + 1, m}}, to[] = {{}, {m + 1}, {m + 2, m}, {m, m + 1, m + 2}, {m + 1, m}}; a = from[vx_pick(3, "from")]; b = to[vx_pick(5, "to")]; }
    for (auto* l : {&a, &b}) { auto& t = w.dom.get_type(*l); l->assign(t.mixins.begin(), t.mixins.end()); }
    const type &ta = w.dom.get_type(a), &tb = w.dom.get_type(b); size_t n = b.size();
    for (int i = 0; i < NM; ++i) { funcv[i] = vx_u32("constructed"); updv[i] = vx_u32("updated"); }
    {
        object o(ta, al); set_values(o, "state"); model x; note(o, x); zero_counts(); int blocks = mem.nlive, mblocks = w.ma.mem.nlive;
        nevs = 0; ev want[32]; int nwant = 0; size_t upto = 0; bool done = n == 0, failed_in = false; bool caught = false, asked = false, finalized = false, rolled = false, thrown_out = false; 
        uint32_t f = vx_pick(3, "fault"), steps = f && !more ? 2 : 3; if (f) { fault_kind = (int)f - 1; fault_in = (int)vx_choose(3, "fail_at"); }
        auto args_ok = [&](const init_new_args& g) { vx_check(&g.target_type == &tb && g.target_index < n && b[g.target_index] == &g.info, "a function is told about the mixin it is for"); };
        auto F = [&](init_new_args g) { args_ok(g); int i = idx_of(&g.info); evs[nevs++] = {W_func, i}; if (fails()) throw user_exc{4}; born(&g.info, g.mixin_buf); val(g.mixin_buf) = funcv[i]; };
        auto G = [&](update_common_args g) { args_ok(g); int i = idx_of(&g.info); vx_check(&g.source_type == &ta && g.source_index < a.size() && a[g.source_index] == &g.info && g.mixin_buf == x.at[i], "an update gets the object's mixin"); evs[nevs++] = {W_update, i}; if (fails()) throw user_exc{4}; val(g.mixin_buf) = updv[i]; };
        model y; y.l = b; for (auto* m : b) if (in_model(x, m)) y.v[idx_of(m)] = x.v[idx_of(m)]; // as far as it is known
        // the model of one mixin; tells whether it went well. It follows the failure countdown of the harness
        int left = fault_in;
        auto one = [&](who nw, who cw) -> bool {
            const mixin_info* m = b[upto]; int i = idx_of(m); bool common = in_model(x, m); who k = common ? cw : nw; if (k == W_none) { ++upto; done = upto == n; return true; }
            want[nwant++] = {k, i};
            if (left >= 0 && left-- == 0) { failed_in = true; return false; }
            y.v[i] = k == W_func ? funcv[i] : k == W_default ? dflt[i] : updv[i]; if (common) x.v[i] = y.v[i]; ++upto; done = upto == n; return true;
        };
        auto each = [&](size_t u, who nw, who cw) -> bool { if (u > n) u = n; while (upto < u) if (!one(nw, cw)) return false; return true; };
        thrown e = tries([&] {
            object_mutation mu(o, tb);
            for (uint32_t st = 0; st < steps && !rolled; ++st) {
                bool ok = true, order = false; uint32_t k = vx_pick(st + 1 == steps ? 8 : 6, "piece"), u = 0; if (k >= 1 && k <= 3) { u = vx_pick((uint32_t)n + 1, "upto"); if (!u) u = invalid_mixin_index; } if (k == 4) { u = vx_pick((uint32_t)n + 1, "index"); if (u == n) u = 7; }
                auto act = [&] {
                    switch (k) {
                    case 0: mu.update_next_mixin(F, G); break;
                    case 1: mu.update_each_mixin(F, G, u); break;
                    case 2: mu.construct_each_new_mixin(F, u); break;
                    case 3: mu.default_construct_each_new_mixin(u); break;
                    case 4: mu.update_at(u, F, G); break;
                    case 5: mu.finalize(); break;
                    case 6: mu.rollback(); break;
                    default: throw user_exc{9}; }
                };
                switch (k) {
                case 0: if (!done) ok = one(W_func, W_update); break;
                case 1: ok = each(u, W_func, W_update); break;
                case 2: ok = each(u, W_func, W_none); break;
                case 3: ok = each(u, W_default, W_none); break;
                case 4: if (u < upto || u > n) { ok = false; order = true; vx_reach("order"); } else { ok = each(u, W_default, W_none); if (ok) ok = one(W_func, W_update); } break;
                case 5: finalized |= done; break;
                case 6: vx_assume(!finalized); rolled = true; break;
                default: ok = false; }
                if (!ok) { if (!asked) { caught = vx_flag("goes on"); asked = true; } thrown_out = !caught; }
                if (ok || !caught) act(); else { thrown t = tries(act); vx_check(t != T_none, "a piece fails when something in it fails"); vx_check(t == (order ? T_object : k == 7 ? T_user : want[nwant - 1].w != W_default || fault_kind == 1 ? T_user : T_object), "with the error which happened"); vx_reach("caught"); }
                vx_check(ok || caught, "a piece which fails throws");
                vx_check(mu.complete() == (done && !rolled), "a mutation is complete when every mixin was reached");
                if (finalized) { vx_check(&o.get_type() == &tb, "an applied mutation is in effect"); vx_reach("applied early"); }
            }
            if (!rolled) { bool ok = each(n, W_default, W_none); if (!ok) thrown_out = true; }
        });
        fault_in = -1; vx_check((e != T_none) == thrown_out, "a mutation fails exactly when something in it fails and is not caught");
        vx_check(nevs <= nwant, "no function is called twice or for a mixin passed over"); int ie = 0; for (int j = 0; j < nwant; ++j) if (want[j].w != W_default) { vx_check(ie < nevs && evs[ie].w == want[j].w && evs[ie].i == want[j].i, "the functions given are called for their mixins, in order"); ++ie; } vx_check(ie == nevs, "and for no other");
        bool applied = finalized || (!thrown_out && !rolled);
        if (applied) { vx_check(&o.get_type() == &tb, "the object ends with the requested type"); verify(o, y); vx_check((size_t)nlive == tracked(b), "exactly the mixins of the type are alive"); vx_reach("applied"); if (thrown_out) vx_reach("applied and thrown"); }
        else { vx_check(&o.get_type() == &ta, "a mutation which is not applied leaves the type"); verify(o, x, true); vx_check((size_t)nlive == tracked(a) && mem.nlive == blocks && w.ma.mem.nlive == mblocks, "and nothing new"); vx_reach(rolled ? "rolled back" : "undone"); }
        o.clear(); vx_check(nlive == 0, "the object can be cleared");
    }
    vx_check(nlive == 0 && mem.nlive == 0 && w.ma.mem.nlive == 0, "nothing is left");
}
#define MAIN pieces()
#endif
extern "C" void vx_main() { MAIN; vx_reach("end"); }
