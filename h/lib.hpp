// helpers shared by the library harnesses
#pragma once
#include "vx.h"
#include <new>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <memory_resource>
#include <dynamix/domain.hpp>
#include <dynamix/type.hpp>
#include <dynamix/type_mutation.hpp>
#include <dynamix/object.hpp>
#include <dynamix/object_mutation.hpp>
#include <dynamix/mixin_info.hpp>
#include <dynamix/mixin_info_util.hpp>
#include <dynamix/feature_info.hpp>
#include <dynamix/feature_for_mixin.hpp>
#include <dynamix/mutation_rule_info.hpp>
#include <dynamix/mixin_allocator.hpp>
#include <dynamix/exception.hpp>
#include <dynamix/mutate.hpp>
#include <dynamix/mutate_to.hpp>
using namespace dynamix;
typedef std::vector<const mixin_info*> list;
typedef itlib::span<const mixin_info* const> mspan;

// an empty mixin
static inline mixin_info plain(const char* name) {
    mixin_info i = dnmx_make_mixin_info();
    i.name = dnmx_make_sv_str(name);
    util::common_init_mixin_info<void>(i);
    return i;
}
static inline feature_info feat(const char* name, bool clash = false, dnmx_feature_payload def = nullptr) {
    feature_info f = dnmx_make_feature_info();
    f.name = dnmx_make_sv_str(name); f.allow_clashes = clash; f.default_payload = def;
    return f;
}
static inline mutation_rule_info rule(const char* name, mutation_rule_info::apply_func f, int32_t prio = 0, uintptr_t ud = 0) {
    mutation_rule_info r = {}; r.name = dnmx_make_sv_str(name); r.apply = f; r.order_priority = prio; r.user_data = ud; return r;
}
static inline bool same(mspan a, const list& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < b.size(); ++i) if (a[i] != b[i]) return false;
    return true;
}
// any sequence of at most maxn different mixins out of k: the length is one path each, the elements stay symbolic
static inline list pick_seq(const mixin_info* m, uint32_t k, uint32_t maxn, const char* what) {
    list r; uint32_t n = vx_pick(maxn + 1, what); uint32_t c[8];
    for (uint32_t i = 0; i < n; ++i) {
        c[i] = vx_choose(k, what); bool fresh = true;
        for (uint32_t j = 0; j < i; ++j) fresh &= c[j] != c[i];
        vx_assume(fresh); r.push_back(m + c[i]);
    }
    return r;
}
// what a call threw
enum thrown { T_none, T_domain, T_type, T_object, T_feature, T_alloc, T_user, T_other };
struct user_exc { int v; };
template <class F> static thrown tries(F&& f) {
    try { f(); return T_none; }
    catch (const domain_error&) { return T_domain; }
    catch (const type_error&) { return T_type; }
    catch (const object_error&) { return T_object; }
    catch (const feature_error&) { return T_feature; }
    catch (const std::bad_alloc&) { return T_alloc; }
    catch (const user_exc&) { return T_user; }
    catch (const dynamix::exception&) { return T_other; }
}

// a memory resource which fails on request and checks that everything comes back as it went out
struct checked_resource final : std::pmr::memory_resource {
    struct rec { void* p; size_t n, a; }; rec live[96]; int nlive = 0; int count = 0; int fail_at = -1; int total = 0; bool failed = false;
    const char* name;
    explicit checked_resource(const char* n = "resource") : name(n) {}
    ~checked_resource() { vx_check(nlive == 0, "everything allocated from a resource went back to it"); }
    void* do_allocate(size_t n, size_t a) override {
        ++count;
        if (fail_at >= 0 && fail_at-- == 0) { failed = true; throw std::bad_alloc(); }
        vx_check(n < 100000 && a && (a & (a - 1)) == 0, "sane size and alignment asked of a resource");
        void* p = ::operator new(n, std::align_val_t(a < 16 ? 16 : a));
        vx_check(nlive < 96, "harness: room for the record");
        live[nlive++] = {p, n, a}; ++total;
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        for (int i = 0; i < nlive; ++i) if (live[i].p == p) {
            vx_check(live[i].n == n && live[i].a == a, "memory goes back with the size and alignment it was asked with");
            size_t al = a < 16 ? 16 : a; ::operator delete(p, n, std::align_val_t(al));
            live[i] = live[--nlive]; return;
        }
        vx_check(false, "memory goes back to the allocator it came from, once");
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    const rec* holds(const void* p, size_t n) const { // the live block which contains [p, p+n)
        for (int i = 0; i < nlive; ++i) if ((uintptr_t)p >= (uintptr_t)live[i].p && (uintptr_t)p + n <= (uintptr_t)live[i].p + live[i].n) return &live[i];
        return nullptr;
    }
};
