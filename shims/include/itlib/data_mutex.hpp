#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename T, typename M> class data_mutex {
    T m_data; mutable M m_mutex;
    template <typename D, typename L> class lk {
        D* d; L l;
    public:
        lk(D& d, M& m) : d(&d), l(m) {}
        lk(lk&&) noexcept = default; lk& operator=(lk&&) noexcept = default;
        D* operator->() const { return d; }
        D& operator*() const { return *d; }
        void unlock() { l.unlock(); d = nullptr; }
        explicit operator bool() const { return !!d; }
    };
public:
    template <typename... A> data_mutex(A&&... a) : m_data(std::forward<A>(a)...) {}
    data_mutex(const data_mutex&) = delete; data_mutex& operator=(const data_mutex&) = delete;
    using unique_lock_t = lk<T, std::unique_lock<M>>;
    using shared_lock_t = lk<const T, std::shared_lock<M>>;
    unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
};
}
