#pragma once
#include <cstddef>
#include <string>
#include <string_view>
namespace sharksfin {
class Slice {
public:
    constexpr Slice() noexcept = default;
    constexpr Slice(void const* p, std::size_t n) noexcept : p_(static_cast<char const*>(p)), n_(n) {}
    constexpr Slice(std::string_view s) noexcept : p_(s.data()), n_(s.size()) {}  // NOLINT
    Slice(std::string const& s) noexcept : p_(s.data()), n_(s.size()) {}  // NOLINT
    constexpr Slice(char const* s) noexcept : Slice(std::string_view{s}) {}  // NOLINT
    template <class T = char> [[nodiscard]] T const* data() const noexcept { return reinterpret_cast<T const*>(p_); }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr std::string_view to_string_view() const noexcept { return {p_, n_}; }
    [[nodiscard]] std::string to_string() const { return std::string{p_, n_}; }
private:
    char const* p_{};
    std::size_t n_{};
};
}
