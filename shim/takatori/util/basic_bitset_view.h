#pragma once
#include <cstddef>
#include <type_traits>
namespace takatori::util {
template <class Byte> class basic_bitset_view {
public:
    using block_type = Byte; using size_type = std::size_t; using pointer = Byte*; using const_pointer = Byte const*;
    constexpr basic_bitset_view() noexcept = default;
    constexpr basic_bitset_view(Byte* p, size_type n) noexcept : p_(p), n_(n) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, Byte*>>> constexpr basic_bitset_view(basic_bitset_view<U> const& o) noexcept : p_(o.block_data()), n_(o.size()) {}  // NOLINT
    static constexpr size_type block_size(size_type n) { return (n + 7) / 8; }
    [[nodiscard]] constexpr size_type size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr size_type block_size() const noexcept { return block_size(n_); }
    [[nodiscard]] constexpr Byte* block_data() const noexcept { return p_; }
    [[nodiscard]] constexpr Byte* block_begin() const noexcept { return p_; }
    [[nodiscard]] constexpr Byte* block_end() const noexcept { return p_ + block_size(); }
    // Whether takatori iterates by bit or by block is not known here; both agree on what the
    // harnesses do (a last block of which no or one bit is used).
    struct iterator {
        Byte* p;
        constexpr iterator& operator--() { --p; return *this; }
        constexpr iterator& operator++() { ++p; return *this; }
        constexpr Byte& operator*() const { return *p; }
        friend constexpr bool operator==(iterator a, iterator b) { return a.p == b.p; }
        friend constexpr bool operator!=(iterator a, iterator b) { return a.p != b.p; }
    };
    [[nodiscard]] constexpr iterator begin() const noexcept { return {p_}; }
    [[nodiscard]] constexpr iterator end() const noexcept { return {p_ + block_size()}; }
    [[nodiscard]] constexpr bool test(size_type i) const { return (static_cast<unsigned char>(p_[i / 8]) >> (i % 8) & 1U) != 0; }
    [[nodiscard]] constexpr bool operator[](size_type i) const { return test(i); }
private:
    Byte* p_{};
    size_type n_{};
};
}
