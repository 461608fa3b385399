#pragma once
#include <algorithm>
#include <iterator>
#include <type_traits>
#include <utility>
namespace itlib {
template <typename C, typename V> auto qfind(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <typename C, typename P> auto qfind_if(C&& c, P p) { return std::find_if(std::begin(c), std::end(c), p); }
template <typename C, typename V> auto pfind(C&& c, const V& v) -> decltype(&*std::begin(c)) {
    auto f = std::find(std::begin(c), std::end(c), v);
    if (f == std::end(c)) return nullptr;
    return &*f;
}
template <typename C, typename P> auto pfind_if(C&& c, P p) -> decltype(&*std::begin(c)) {
    auto f = std::find_if(std::begin(c), std::end(c), p);
    if (f == std::end(c)) return nullptr;
    return &*f;
}
template <typename C, typename P> bool qall_of(C&& c, P p) { return std::all_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool qany_of(C&& c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
template <typename C, typename P> bool qnone_of(C&& c, P p) { return std::none_of(std::begin(c), std::end(c), p); }
template <typename C, typename V> auto erase_all(C& c, const V& v) {
    auto n = std::end(c); auto f = std::remove(std::begin(c), n, v);
    auto r = std::distance(f, n); c.erase(f, n); return size_t(r);
}
template <typename C, typename P> auto erase_all_if(C& c, P p) {
    auto n = std::end(c); auto f = std::remove_if(std::begin(c), n, p);
    auto r = std::distance(f, n); c.erase(f, n); return size_t(r);
}
template <typename C, typename V> bool erase_first(C& c, const V& v) {
    auto f = std::find(std::begin(c), std::end(c), v);
    if (f == std::end(c)) return false;
    c.erase(f); return true;
}
template <typename C, typename P> bool erase_first_if(C& c, P p) {
    auto f = std::find_if(std::begin(c), std::end(c), p);
    if (f == std::end(c)) return false;
    c.erase(f); return true;
}
}
