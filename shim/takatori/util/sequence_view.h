#pragma once
#include <cstddef>
#include <iterator>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class I> class sequence_view;
namespace details {
template <class T> struct seq_iter { using type = T*; };
}
// a range of consecutive T; a second form over iterators is not needed here
template <class T> class sequence_view {
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using pointer = T*; using const_pointer = T const*; using reference = T&; using const_reference = T const&;
    using iterator = T*; using const_iterator = T const*; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T& e) noexcept : b_(std::addressof(e)), n_(1) {}  // NOLINT
    constexpr explicit sequence_view(T* p) noexcept : b_(p), n_(1) {}
    constexpr sequence_view(T* b, T* e) noexcept : b_(b), n_(static_cast<size_type>(e - b)) {}
    constexpr sequence_view(T* b, size_type n) noexcept : b_(b), n_(n) {}
    template <class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<C&>().data()), T*> && !std::is_same_v<std::decay_t<C>, sequence_view>>>
    constexpr sequence_view(C& c) noexcept : b_(c.data()), n_(c.size()) {}  // NOLINT
    template <class C, class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<C const&>().data()), T*> && !std::is_same_v<std::decay_t<C>, sequence_view>>, class = void>
    constexpr sequence_view(C const& c) noexcept : b_(c.data()), n_(c.size()) {}  // NOLINT
    [[nodiscard]] constexpr size_type size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr T* data() const noexcept { return b_; }
    [[nodiscard]] constexpr T& operator[](size_type i) const { return b_[i]; }
    [[nodiscard]] constexpr T& at(size_type i) const { if (i >= n_) throw std::out_of_range("sequence_view"); return b_[i]; }
    [[nodiscard]] constexpr T& front() const { return b_[0]; }
    [[nodiscard]] constexpr T& back() const { return b_[n_ - 1]; }
    [[nodiscard]] constexpr T* begin() const noexcept { return b_; }
    [[nodiscard]] constexpr T* end() const noexcept { return b_ + n_; }
    [[nodiscard]] constexpr T const* cbegin() const noexcept { return b_; }
    [[nodiscard]] constexpr T const* cend() const noexcept { return b_ + n_; }
private:
    T* b_{};
    size_type n_{};
};
template <class T> sequence_view(T*) -> sequence_view<T>;
template <class T> std::ostream& operator<<(std::ostream& out, sequence_view<T> v) {
    out << "[";
    bool first = true;
    for (auto&& e : v) { out << (first ? "" : ", ") << e; first = false; }
    return out << "]";
}
}
