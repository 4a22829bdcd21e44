#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class T> class optional_ptr {
public:
    using value_type = T;
    using reference = std::add_lvalue_reference_t<T>;
    using pointer = std::add_pointer_t<T>;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}  // NOLINT
    constexpr explicit optional_ptr(pointer p) noexcept : p_(p) {}
    constexpr optional_ptr(reference r) noexcept : p_(std::addressof(r)) {}  // NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, pointer>>> constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_(o.get()) {}  // NOLINT
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr reference operator*() const noexcept { return *p_; }
    [[nodiscard]] constexpr pointer operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr reference value() const { if (p_ == nullptr) throw std::out_of_range("absent"); return *p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr bool is_absent() const noexcept { return p_ == nullptr; }
    [[nodiscard]] constexpr bool empty() const noexcept { return p_ == nullptr; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    template <class F, class... A> void if_present(F&& f, A&&... a) const { if (p_) std::invoke(std::forward<F>(f), *p_, std::forward<A>(a)...); }
    void reset() noexcept { p_ = nullptr; }
    void reset(reference r) noexcept { p_ = std::addressof(r); }
private:
    pointer p_{};
};
template <class T> optional_ptr(T&) -> optional_ptr<T>;
template <class T, class U> constexpr bool operator==(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template <class T, class U> constexpr bool operator!=(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template <class T> constexpr bool operator==(optional_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template <class T> constexpr bool operator!=(optional_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
}
