#pragma once
#include <atomic>
namespace itlib {
template <typename T> class atomic_relaxed_counter {
    std::atomic<T> m_v;
public:
    atomic_relaxed_counter(T v = 0) noexcept : m_v(v) {}
    T load() const noexcept { return m_v.load(std::memory_order_relaxed); }
    operator T() const noexcept { return load(); }
    T operator++() noexcept { return m_v.fetch_add(1, std::memory_order_relaxed) + 1; }
    T operator++(int) noexcept { return m_v.fetch_add(1, std::memory_order_relaxed); }
    T operator--() noexcept { return m_v.fetch_sub(1, std::memory_order_relaxed) - 1; }
    T operator--(int) noexcept { return m_v.fetch_sub(1, std::memory_order_relaxed); }
};
}
