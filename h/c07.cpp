// C07: construction from a tuple
#include "vx.h"
#include <dynamix/bits/make_from_tuple.hpp>
#include <initializer_list>
#include <memory>
#include <array>
#include <string.h>
using dynamix::impl::make_from_tuple;
struct R { // remembers how it came to be
    int v; uint8_t copies = 0, moves = 0;
    explicit R(int v) : v(v) {}
    R(const R& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    R(R&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
    R& operator=(const R&) = delete;
};
static int made;
struct Three { R a, b, c; Three(R a_, const R& b_, R&& c_) : a(std::move(a_)), b(b_), c(std::move(c_)) { ++made; } Three(const Three& o) : a(o.a), b(o.b), c(o.c) { made += 100; } };
struct Kinds { char k[4]; const void* at[4];
    template <class A, class B, class C> Kinds(A&& a, B&& b, C&& c) { k[0] = kind<A>(); k[1] = kind<B>(); k[2] = kind<C>(); at[0] = &a; at[1] = &b; at[2] = &c; ++made; }
    template <class T> static char kind() { return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 'c' : 'l') : (std::is_const_v<std::remove_reference_t<T>> ? 'x' : 'r'); }
};
struct Il { int how; Il(int a, int b) : how(a * 2 + b) {} Il(std::initializer_list<int>) : how(-7) {} };
struct Ten { int s[10]; Ten(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) : s{a, b, c, d, e, f, g, h, i, j} {} };
struct Nul { int v; Nul() : v(77) { ++made; } };
struct Ref { int& r; const int& c; Ref(int& a, const int& b) : r(a), c(b) {} };
struct Uniq { std::unique_ptr<int> p; long y; Uniq(std::unique_ptr<int> q, long z) : p(std::move(q)), y(z) {} };
template <class T> struct Place { char g0[16]; alignas(16) char m[sizeof(T)]; char g1[16]; Place() { memset(g0, 0x5a, 16); memset(g1, 0x5a, 16); } T* get() { return (T*)m; } void ok() { for (int i = 0; i < 16; ++i) vx_check(g0[i] == 0x5a && g1[i] == 0x5a, "nothing is written outside the object"); } };
extern "C" void vx_main() {
    int x = vx_i32("x"), y = vx_i32("y"), z = vx_i32("z");
    made = 0;
    uint32_t part = vx_pick(7, "part");
    if (part == 0) { Place<Three> p; std::tuple<R, R, R> t(R{x}, R{y}, R{z}); uint8_t m0 = std::get<0>(t).moves;
        make_from_tuple<Three>(p.m, std::move(t)); auto* o = p.get();
        vx_check(made == 1 && o->a.v == x && o->b.v == y && o->c.v == z, "elements arrive in order with their value");
        vx_check(o->a.copies == 0 && o->a.moves == m0 + 2, "an rvalue tuple moves its values"); vx_check(o->b.copies == 1 && std::get<1>(t).v == y, "a const reference parameter copies"); vx_check(o->c.copies == 0, "an rvalue reference parameter moves"); p.ok(); }
    else if (part == 1) { Place<Kinds> p; int lv = x; const int cv = y; std::tuple<int, int&, const int&> t(z, lv, cv); const auto& ct = t;
        uint32_t how = vx_pick(3, "how");
        if (how == 0) { make_from_tuple<Kinds>(p.m, t); vx_check(p.get()->k[0] == 'l' && p.get()->k[1] == 'l' && p.get()->k[2] == 'c', "lvalue tuple: category"); }
        else if (how == 1) { make_from_tuple<Kinds>(p.m, std::move(t)); vx_check(p.get()->k[0] == 'r' && p.get()->k[1] == 'l' && p.get()->k[2] == 'c', "rvalue tuple: category"); }
        else { make_from_tuple<Kinds>(p.m, ct); vx_check(p.get()->k[0] == 'c' && p.get()->k[1] == 'l' && p.get()->k[2] == 'c', "const tuple: category"); }
        vx_check(made == 1 && p.get()->at[0] == &std::get<0>(t) && p.get()->at[1] == &lv && p.get()->at[2] == &cv, "references stay references to the original"); p.ok(); }
    else if (part == 2) { Place<Ref> p; int a = x; const int b = y; make_from_tuple<Ref>(p.m, std::forward_as_tuple(a, b)); p.get()->r = z; vx_check(a == z && &p.get()->c == &b, "forwarded references"); p.ok(); }
    else if (part == 3) { Place<Uniq> p; int* raw = new int(x); make_from_tuple<Uniq>(p.m, std::make_tuple(std::unique_ptr<int>(raw), (long)y)); vx_check(p.get()->p.get() == raw && *raw == x && p.get()->y == y, "move-only values are moved"); p.get()->~Uniq(); p.ok(); }
    else if (part == 4) { Place<Nul> p; make_from_tuple<Nul>(p.m, std::tuple<>()); vx_check(made == 1 && p.get()->v == 77, "no arguments"); Place<int> q; make_from_tuple<int>(q.m, std::make_tuple(x)); vx_check(*q.get() == x, "one scalar"); Place<int> w; *w.get() = x; make_from_tuple<int>(w.m, std::tuple<>()); vx_check(*w.get() == 0, "no arguments: value"); q.ok(); p.ok(); }
    else if (part == 5) { Place<Il> p; vx_assume(x > -1000 && x < 1000 && y > -1000 && y < 1000); make_from_tuple<Il>(p.m, std::make_tuple(x, y)); vx_check(p.get()->how == x * 2 + y, "the constructor for the arguments is chosen"); p.ok();
        Place<Ten> t; make_from_tuple<Ten>(t.m, std::make_tuple(x, y, z, 3, 4, 5, 6, 7, x, y)); auto* s = t.get()->s; vx_check(s[0] == x && s[1] == y && s[2] == z && s[3] == 3 && s[4] == 4 && s[5] == 5 && s[6] == 6 && s[7] == 7 && s[8] == x && s[9] == y, "ten arguments in order"); t.ok();
        Place<Ten> u; std::array<int, 10> arr{x, y, z, 1, 2, 3, 4, 5, 6, z}; make_from_tuple<Ten>(u.m, arr); vx_check(u.get()->s[0] == x && u.get()->s[9] == z && u.get()->s[1] == y && u.get()->s[8] == 6, "tuple-like arrays"); u.ok();
        Place<Il> pr; make_from_tuple<Il>(pr.m, std::pair<int, int>(x, y)); vx_check(pr.get()->how == x * 2 + y, "pairs"); }
    else { Place<R> p; std::tuple<R> t(R{x}); uint8_t m0 = std::get<0>(t).moves;
        if (vx_flag("lvalue")) { make_from_tuple<R>(p.m, t); vx_check(p.get()->v == x && p.get()->copies == 1 && p.get()->moves == m0 && std::get<0>(t).v == x, "an lvalue tuple copies its values"); }
        else { make_from_tuple<R>(p.m, std::move(t)); vx_check(p.get()->v == x && p.get()->copies == 0 && p.get()->moves == m0 + 1 && std::get<0>(t).v == -1, "an rvalue tuple moves its values"); } p.ok(); }
    vx_reach("end");
}
