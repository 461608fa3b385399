#pragma once
#include <algorithm>
#include <functional>
#include <utility>
#include <vector>
namespace itlib {
template <typename K, typename T, typename Cmp = std::less<>, typename Cont = std::vector<std::pair<K, T>>>
class flat_map {
    Cmp m_cmp; Cont m_c;
    template <typename Q> auto lb(const Q& k) { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const auto& a, const Q& b) { return m_cmp(a.first, b); }); }
    template <typename Q> auto lb(const Q& k) const { return std::lower_bound(m_c.begin(), m_c.end(), k, [this](const auto& a, const Q& b) { return m_cmp(a.first, b); }); }
public:
    using key_type = K; using mapped_type = T; using value_type = std::pair<K, T>;
    using iterator = typename Cont::iterator; using const_iterator = typename Cont::const_iterator; using size_type = size_t;
    flat_map() = default;
    template <typename A> flat_map(const Cmp& c, const A& a) : m_cmp(c), m_c(a) {}
    iterator begin() { return m_c.begin(); } iterator end() { return m_c.end(); }
    const_iterator begin() const { return m_c.begin(); } const_iterator end() const { return m_c.end(); }
    size_t size() const { return m_c.size(); } bool empty() const { return m_c.empty(); }
    void clear() { m_c.clear(); }
    template <typename Q> iterator find(const Q& k) { auto i = lb(k); if (i != m_c.end() && !m_cmp(k, i->first)) return i; return m_c.end(); }
    template <typename Q> const_iterator find(const Q& k) const { auto i = lb(k); if (i != m_c.end() && !m_cmp(k, i->first)) return i; return m_c.end(); }
    template <typename Q> size_t count(const Q& k) const { return find(k) != end(); }
    T& operator[](const K& k) { auto i = lb(k); if (i != m_c.end() && !m_cmp(k, i->first)) return i->second; return m_c.emplace(i, k, T())->second; }
    T& operator[](K&& k) { auto i = lb(k); if (i != m_c.end() && !m_cmp(k, i->first)) return i->second; return m_c.emplace(i, std::forward<K>(k), T())->second; }
    template <typename Q> T& at(const Q& k) { return find(k)->second; }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { value_type v(std::forward<A>(a)...); auto i = lb(v.first); if (i != m_c.end() && !m_cmp(v.first, i->first)) return {i, false}; return {m_c.emplace(i, std::move(v)), true}; }
    std::pair<iterator, bool> insert(value_type v) { return emplace(std::move(v)); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    iterator erase(iterator i) { return m_c.erase(i); }
    size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
};
}
