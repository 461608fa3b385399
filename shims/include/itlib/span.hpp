#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
#include <cassert>
namespace itlib {
template <typename T> class span {
    T* m_begin = nullptr; T* m_end = nullptr;
public:
    using value_type = std::remove_cv_t<T>; using element_type = T;
    using iterator = T*; using const_iterator = T*; using size_type = size_t;
    constexpr span() noexcept = default;
    constexpr span(T* b, size_t n) noexcept : m_begin(b), m_end(b + n) {}
    constexpr span(T* b, T* e) noexcept : m_begin(b), m_end(e) {}
    template <size_t N> constexpr span(T (&ar)[N]) noexcept : m_begin(ar), m_end(ar + N) {}
    template <typename U, std::enable_if_t<std::is_convertible_v<U(*)[], T(*)[]> && !std::is_same_v<U, T>, int> = 0>
    constexpr span(const span<U>& o) noexcept : m_begin(o.begin()), m_end(o.end()) {}
    constexpr span(const span&) noexcept = default;
    constexpr span& operator=(const span&) noexcept = default;
    template <typename C, std::enable_if_t<!std::is_array_v<std::remove_reference_t<C>> &&
        std::is_convertible_v<decltype(std::declval<C&>().data()), T*> && std::is_convertible_v<decltype(std::declval<C&>().size()), size_t>, int> = 0>
    constexpr span(C&& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}
    constexpr T* begin() const noexcept { return m_begin; }
    constexpr T* end() const noexcept { return m_end; }
    constexpr T* data() const noexcept { return m_begin; }
    constexpr size_t size() const noexcept { return size_t(m_end - m_begin); }
    constexpr size_t size_bytes() const noexcept { return size() * sizeof(T); }
    constexpr bool empty() const noexcept { return m_begin == m_end; }
    constexpr T& operator[](size_t i) const noexcept { assert(i < size()); return m_begin[i]; }
    constexpr T& at(size_t i) const { return m_begin[i]; }
    constexpr T& front() const noexcept { return *m_begin; }
    constexpr T& back() const noexcept { return *(m_end - 1); }
    constexpr span subspan(size_t off, size_t n = size_t(-1)) const noexcept { return n == size_t(-1) ? span(m_begin + off, m_end) : span(m_begin + off, n); }
    constexpr explicit operator bool() const noexcept { return !!m_begin; }
};
template <typename T, size_t N> span(T (&)[N]) -> span<T>;
template <typename T> span(T*, size_t) -> span<T>;
template <typename C> span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename T> span<T> make_span(T* p, size_t n) { return {p, n}; }
}
