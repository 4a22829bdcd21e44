#pragma once
#include <cstddef>
#include <iterator>
#include <stdexcept>
#include <type_traits>
namespace takatori::util {
template <class Byte> class basic_buffer_view {
public:
    using value_type = Byte; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using pointer = Byte*; using reference = Byte&; using iterator = Byte*; using const_pointer = Byte const*; using const_reference = Byte const&;
    using const_iterator = Byte const*;
    using address_type = std::conditional_t<std::is_const_v<Byte>, void const*, void*>;
    constexpr basic_buffer_view() noexcept = default;
    constexpr basic_buffer_view(address_type p, size_type n) noexcept : p_(static_cast<Byte*>(p)), n_(n) {}
    constexpr basic_buffer_view(pointer p, size_type n) noexcept : p_(p), n_(n) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, Byte*>>> constexpr basic_buffer_view(basic_buffer_view<U> const& o) noexcept : p_(o.data()), n_(o.size()) {}  // NOLINT
    [[nodiscard]] constexpr pointer data() const noexcept { return p_; }
    [[nodiscard]] constexpr size_type size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr reference operator[](size_type i) const { return p_[i]; }
    [[nodiscard]] constexpr reference at(size_type i) const { if (i >= n_) throw std::out_of_range("buffer"); return p_[i]; }
    [[nodiscard]] constexpr iterator begin() const noexcept { return p_; }
    [[nodiscard]] constexpr iterator end() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr const_iterator cbegin() const noexcept { return p_; }
    [[nodiscard]] constexpr const_iterator cend() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr basic_buffer_view slice(size_type o, size_type n) const { return {p_ + o, n}; }
private:
    pointer p_{};
    size_type n_{};
};
}
