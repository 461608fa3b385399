// C08: result combinators
#include "vx.h"
#include <type_traits>
#include <dynamix/v1compat/combinators.hpp>
using namespace dynamix::v1compat::combinators;
#define N (VX_TIER == 2 ? 9 : 5)
struct Conv { int v; explicit operator bool() const { return v > 3; } };
template <class T> T value(const char* n);
template <> bool value<bool>(const char* n) { return vx_bool(n); }
template <> int value<int>(const char* n) { return vx_i32(n); }
template <> uint8_t value<uint8_t>(const char* n) { return vx_u8(n); }
template <> int64_t value<int64_t>(const char* n) { return (int64_t)vx_u64(n); }
template <> uint32_t value<uint32_t>(const char* n) { return vx_u32(n); }
template <> Conv value<Conv>(const char* n) { return Conv{vx_i32(n)}; }
template <> int* value<int*>(const char* n) { static int x; return vx_bool(n) ? &x : nullptr; }
template <> double value<double>(const char* n) { static const double v[] = {0.0, 0.5, -2.25, 1e300}; return v[vx_pick(4, n)]; }
template <class C, class T> static void logic(C& c, bool conj) {
    uint32_t n = vx_pick(N + 1, "n"); c.set_num_results(n);
    bool acc = conj; vx_check(c.result() == acc, "result before any value");
    for (uint32_t i = 0; i < n; ++i) {
        T v = value<T>("r"); bool b = bool(v); acc = conj ? (acc && b) : (acc || b);
        bool go = c.add_result(v);
        vx_check(go == (conj ? acc : !acc), "asks to stop exactly when the result is settled");
        vx_check(c.result() == acc, "result after each value");
    }
}
template <class T> static void both() {
    if (vx_flag("and")) { boolean_and<T> c; logic<boolean_and<T>, T>(c, true); c.reset(); vx_check(c.result(), "reset"); logic<boolean_and<T>, T>(c, true); }
    else { boolean_or<T> c; logic<boolean_or<T>, T>(c, false); c.reset(); vx_check(!c.result(), "reset"); logic<boolean_or<T>, T>(c, false); }
}
template <class T> static void numeric(uint32_t lim) {
    typedef std::conditional_t<std::is_same_v<T, double>, double, std::make_unsigned_t<std::conditional_t<std::is_same_v<T, double>, int, T>>> U; // wraps without being undefined
    sum<T> s; mean<T> m;
    for (int round = 0; round < 2; ++round) {
        uint32_t n = vx_pick(lim + 1, "n"); s.set_num_results(n); m.set_num_results(n);
        U acc = 0; vx_check(s.result() == 0, "sum of nothing");
        for (uint32_t i = 0; i < n; ++i) {
            T v = value<T>("r");
            if constexpr (!std::is_same_v<T, double> && std::is_signed_v<T>) vx_assume(v > -(T(1) << (sizeof(T) * 8 - 6)) && v < (T(1) << (sizeof(T) * 8 - 6)));
            acc = U(acc + U(v));
            vx_check(s.add_result(v), "sum never asks to stop"); vx_check(m.add_result(v), "mean never asks to stop");
            vx_check(s.result() == T(acc), "sum");
        }
        if (n) vx_check(m.result() == T(T(acc) / T(n)), "mean");
        s.reset(); m.reset(); vx_check(s.result() == 0, "reset sum");
    }
}
extern "C" void vx_main() {
    switch (vx_pick(9, "kind")) {
    case 0: both<bool>(); break;
    case 1: both<int>(); break;
    case 2: both<Conv>(); break;
    case 3: both<int*>(); break;
    case 4: numeric<int>(VX_TIER == 2 ? 5 : 3); break;
    case 5: numeric<uint8_t>(N); break;
    case 6: numeric<int64_t>(VX_TIER == 2 ? 4 : 2); break;
    case 7: numeric<uint32_t>(VX_TIER == 2 ? 5 : 3); break;
    case 8: numeric<double>(VX_TIER == 2 ? 3 : 2); break;
    }
    vx_reach("end");
}
