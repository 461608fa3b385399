// C12: lookups and traits agree with the mixin list
#include "lib.hpp"
#define K 3
static dnmx_error_return_t ini(const mixin_info*, void*) { return 0; }
static dnmx_error_return_t cpy(const mixin_info*, void*, const void*) { return 0; }
static bool eq(const mixin_info*, const void*, const void*) noexcept { return true; }
static int cmp(const mixin_info*, const void*, const void*) noexcept { return 0; }
template <class F> static F maybe(F f, bool b) { return F(uintptr_t(f) & (uintptr_t(0) - uintptr_t(b))); }
extern "C" void vx_main() {
    static const char* nm[K] = {"a", "ab", "zz"};
    mixin_info m[K], un = plain("un"), gone = plain("gone");
    bool I[K], CI[K], CA[K], EQ[K], CM[K];
    uint32_t part = vx_pick(2, "part"), which = 0; bool rest = true;
    if (part == 0) { which = vx_pick(VX_TIER == 2 ? 5 : 4, "which"); rest = vx_flag("rest"); }
    // one trait (the two comparisons together; thorough: also all at once) differs freely between the mixins, the others are the same for all
    auto any = [&](uint32_t k, const char* n) { return which == k || which == 4 ? vx_bool(n) : rest; };
    for (int i = 0; i < K; ++i) {
        m[i] = plain(nm[i]); I[i] = CI[i] = CA[i] = CM[i] = true; EQ[i] = false;
        if (part == 0) {
            I[i] = any(0, "init"); CI[i] = any(1, "copy_init"); CA[i] = any(2, "copy_asgn"); EQ[i] = any(3, "equals"); CM[i] = any(3, "compare");
            m[i].init = maybe(&ini, I[i]); m[i].copy_init = maybe(&cpy, CI[i]); m[i].copy_asgn = maybe(&cpy, CA[i]); m[i].equals = maybe(&eq, EQ[i]); m[i].compare = maybe(&cmp, CM[i]);
        } else m[i].set_size_alignment(8 + i, 8);
    }
    domain dom("d"); dom.register_mixin(gone);
    bool rev = vx_flag("reverse"); for (int i = 0; i < K; ++i) dom.register_mixin(m[rev ? K - 1 - i : i]);
    dom.unregister_mixin(gone);
    list q = pick_seq(m, K, K, "seq");
    const type& t = dom.get_type(q);
    auto pos = [&](const mixin_info* x) { for (size_t i = 0; i < q.size(); ++i) if (q[i] == x) return (mixin_index_t)i; return invalid_mixin_index; };
    if (part == 0) {
        bool di = true, ci = true, ca = true, ec = true, cc = true;
        for (auto* x : q) { size_t i = x - m; di &= I[i]; ci &= CI[i]; ca &= CA[i]; ec &= EQ[i] | CM[i]; cc &= CM[i]; }
        vx_check(t.default_constructible() == di, "default constructible exactly when every mixin is");
        vx_check(t.copy_constructible() == ci, "copy constructible exactly when every mixin is");
        vx_check(t.copy_assignable() == ca, "copy assignable exactly when every mixin is");
        vx_check(t.copyable() == (ci && ca), "copyable exactly when every mixin is");
        vx_check(t.equality_comparable() == ec, "equality comparable exactly when every mixin is");
        vx_check(t.comparable() == cc, "comparable exactly when every mixin is");
        vx_reach("traits");
    } else {
        object o(t); const object& co = o; vx_check(co.num_mixins() == q.size() && o.empty() == q.empty() && &o.get_type() == &t && &o.get_domain() == &dom, "object of the type");
        void* at[K]; for (size_t i = 0; i < q.size(); ++i) { at[i] = o.get_at(mixin_index_t(i)); vx_check(at[i] != nullptr, "each mixin has an address"); for (size_t j = 0; j < i; ++j) vx_check(at[i] != at[j], "each its own"); }
        const mixin_info* all[K + 2] = {&m[0], &m[1], &m[2], &un, &gone};
        for (auto* x : all) { // by info and by name
            mixin_index_t p = pos(x); bool h = p != invalid_mixin_index; void* a = h ? at[p] : nullptr; auto n = x->name.to_std();
            vx_check(t.has(*x) == h && t.lacks(*x) == !h && t.has(n) == h && t.lacks(n) == !h && t.index_of(n) == p, "type lookups by info and name");
            vx_check(t.has(x->id) == h && t.lacks(x->id) == !h && t.index_of(x->id) == p, "type lookups by the info's id");
            vx_check(o.has(*x) == h && o.has(n) == h && o.has(x->id) == h, "object has");
            vx_check(o.get(*x) == a && co.get(*x) == a && o.get(n) == a && co.get(n) == a && o.get(x->id) == a && co.get(x->id) == a, "object getters");
        }
        // any id
        mixin_id id{vx_u32("id")}; mixin_index_t want = invalid_mixin_index; void* wa = nullptr;
        for (size_t i = 0; i < q.size(); ++i) if (q[i]->id == id) { want = mixin_index_t(i); wa = at[i]; }
        vx_check(t.index_of(id) == want && t.has(id) == (want != invalid_mixin_index) && t.lacks(id) == (want == invalid_mixin_index), "type lookups by any id");
        vx_check(o.get(id) == wa && co.get(id) == wa && o.has(id) == (wa != nullptr), "object lookups by any id");
        // any index
        mixin_index_t ix = vx_u32("index"); void* wi = nullptr; for (size_t i = 0; i < q.size(); ++i) if (ix == i) wi = at[i];
        vx_check(o.get_at(ix) == wi && co.get_at(ix) == wi, "object lookups by any index");
        for (size_t i = 0; i < q.size(); ++i) vx_check(o.unchecked_get_at(mixin_index_t(i)) == at[i] && co.unchecked_get_at(mixin_index_t(i)) == at[i], "unchecked lookups");
        // any name of up to two characters
        char nb[2]; vx_bytes(nb, 2, "name"); uint32_t nl = vx_pick(3, "len"); std::string_view n(nb, nl); mixin_index_t wn = invalid_mixin_index;
        for (size_t i = 0; i < q.size(); ++i) { auto& x = *q[i]; size_t l = x.name.end - x.name.begin; if (l == nl && (l < 1 || x.name.begin[0] == nb[0]) && (l < 2 || x.name.begin[1] == nb[1])) wn = mixin_index_t(i); }
        vx_check(t.index_of(n) == wn && t.has(n) == (wn != invalid_mixin_index) && o.get(n) == (wn == invalid_mixin_index ? nullptr : at[wn]), "lookups by any name");
        // the empty object has nothing
        object e(dom); vx_check(e.get(m[0]) == nullptr && e.get(id) == nullptr && e.get(n) == nullptr && e.get_at(ix) == nullptr && !e.has(m[0]) && !e.has(n) && e.num_mixins() == 0, "an empty object has nothing");
        vx_reach("lookups");
    }
    vx_reach("end");
}
