#pragma once
#include <memory>
#include <takatori/util/downcast.h>
#include <type_traits>
#include <utility>
namespace takatori::util {
// either a shared owner or a bare pointer
template <class T> class maybe_shared_ptr {
public:
    using element_type = std::remove_extent_t<T>;
    using pointer = std::add_pointer_t<element_type>;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {}  // NOLINT
    constexpr maybe_shared_ptr(pointer p) noexcept : body_(std::shared_ptr<T>{}, p) {}  // NOLINT
    maybe_shared_ptr(std::shared_ptr<T> p) noexcept : body_(std::move(p)) {}  // NOLINT
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, pointer>>> explicit maybe_shared_ptr(U* p) noexcept : body_(std::shared_ptr<T>{}, p) {}
    template <class U, class = std::enable_if_t<std::is_constructible_v<std::shared_ptr<T>, std::shared_ptr<U> const&>>>
    maybe_shared_ptr(std::shared_ptr<U> const& p) noexcept : body_(p) {}  // NOLINT
    template <class U, class = std::enable_if_t<std::is_constructible_v<std::shared_ptr<T>, std::shared_ptr<U>&&>>>
    maybe_shared_ptr(std::shared_ptr<U>&& p) noexcept : body_(std::move(p)) {}  // NOLINT
    template <class U, class D, class = std::enable_if_t<std::is_constructible_v<std::shared_ptr<T>, std::unique_ptr<U, D>&&>>>
    maybe_shared_ptr(std::unique_ptr<U, D>&& p) : body_(std::move(p)) {}  // NOLINT
    template <class U, class = std::enable_if_t<std::is_constructible_v<std::shared_ptr<T>, std::shared_ptr<U> const&>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& p) noexcept : body_(p.body()) {}  // NOLINT
    template <class U, class = std::enable_if_t<std::is_constructible_v<std::shared_ptr<T>, std::shared_ptr<U>&&>>>
    maybe_shared_ptr(maybe_shared_ptr<U>&& p) noexcept : body_(std::move(p.body())) {}  // NOLINT
    [[nodiscard]] pointer get() const noexcept { return body_.get(); }
    [[nodiscard]] std::add_lvalue_reference_t<element_type> operator*() const noexcept { return *body_; }
    [[nodiscard]] pointer operator->() const noexcept { return body_.get(); }
    [[nodiscard]] explicit operator bool() const noexcept { return static_cast<bool>(body_); }
    [[nodiscard]] bool owner() const noexcept { return body_.use_count() != 0; }
    void reset() noexcept { body_.reset(); }
    void reset(std::nullptr_t) noexcept { body_.reset(); }
    template <class U> void reset(U* p) noexcept { body_ = std::shared_ptr<T>{std::shared_ptr<T>{}, p}; }
    void swap(maybe_shared_ptr& o) noexcept { body_.swap(o.body_); }
    [[nodiscard]] std::shared_ptr<T>& body() & noexcept { return body_; }
    [[nodiscard]] std::shared_ptr<T> const& body() const& noexcept { return body_; }
    // a shared pointer only if this is an owner
    [[nodiscard]] std::shared_ptr<T> ownership() const noexcept { return owner() ? body_ : std::shared_ptr<T>{}; }
private:
    std::shared_ptr<T> body_{};
};
template <class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template <class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template <class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template <class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template <class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template <class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
template <class T> bool operator==(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return a.get() == nullptr; }
template <class T> bool operator!=(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return a.get() != nullptr; }
template <class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { return out << v.get(); }
}
template <class T> struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& p) const noexcept { return std::hash<decltype(p.get())>{}(p.get()); }
};
