#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T> class stride_span {
    using byte_t = std::conditional_t<std::is_const_v<T>, const unsigned char, unsigned char>;
    byte_t* m_b; size_t m_n; size_t m_stride;
public:
    stride_span(byte_t* b, size_t n, size_t s) : m_b(b), m_n(n), m_stride(s) {}
    struct iterator {
        using value_type = std::remove_cv_t<T>; using reference = T&; using pointer = T*; using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        byte_t* p; size_t s;
        T& operator*() const { return *reinterpret_cast<T*>(p); }
        T* operator->() const { return reinterpret_cast<T*>(p); }
        iterator& operator++() { p += s; return *this; }
        iterator operator++(int) { auto c = *this; p += s; return c; }
        bool operator==(const iterator& o) const { return p == o.p; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    iterator begin() const { return {m_b, m_stride}; }
    iterator end() const { return {m_b + m_n * m_stride, m_stride}; }
    size_t size() const { return m_n; }
    bool empty() const { return !m_n; }
    T& operator[](size_t i) const { return *reinterpret_cast<T*>(m_b + i * m_stride); }
};
template <typename S, typename M>
auto make_stride_span_member_view(S* b, size_t n, M std::remove_const_t<S>::* m) {
    using T = std::conditional_t<std::is_const_v<S>, const M, M>;
    using byte_t = std::conditional_t<std::is_const_v<S>, const unsigned char, unsigned char>;
    if (!n) return stride_span<T>(nullptr, 0, sizeof(S));
    return stride_span<T>(reinterpret_cast<byte_t*>(&(b->*m)), n, sizeof(S));
}
}
