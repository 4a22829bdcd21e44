#pragma once
#include <stdexcept>
#include <utility>
#include <variant>
namespace takatori::util {
template <class E, class V>
class either {
public:
    using error_type = E;
    using value_type = V;
    either(E e) : v_(std::in_place_index<0>, std::move(e)) {}  // NOLINT
    either(V v) : v_(std::in_place_index<1>, std::move(v)) {}  // NOLINT
    [[nodiscard]] bool has_value() const noexcept { return v_.index() == 1; }
    [[nodiscard]] bool is_error() const noexcept { return v_.index() == 0; }
    [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
    V& value() { return std::get<1>(v_); }
    V const& value() const { return std::get<1>(v_); }
    E& error() { return std::get<0>(v_); }
    E const& error() const { return std::get<0>(v_); }
    V& operator*() { return value(); }
    V const& operator*() const { return value(); }
    V* operator->() { return &value(); }
    V const* operator->() const { return &value(); }
private:
    std::variant<E, V> v_;
};
}
