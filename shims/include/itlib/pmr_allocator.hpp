#pragma once
#include <cstddef>
#include <memory_resource>
namespace itlib {
template <typename T = std::byte> class pmr_allocator : public std::pmr::polymorphic_allocator<T> {
    using base = std::pmr::polymorphic_allocator<T>;
public:
    pmr_allocator() noexcept = default;
    pmr_allocator(std::pmr::memory_resource* r) : base(r) {}
    template <typename U> pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : base(o) {}
    pmr_allocator(const pmr_allocator&) noexcept = default;
    pmr_allocator& operator=(const pmr_allocator&) = delete;
    void* allocate_bytes(size_t n, size_t a = alignof(std::max_align_t)) { return this->resource()->allocate(n, a); }
    void deallocate_bytes(void* p, size_t n, size_t a = alignof(std::max_align_t)) { this->resource()->deallocate(p, n, a); }
};
}
