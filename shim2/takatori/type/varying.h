#pragma once
namespace takatori::type {
struct varying_t {
    explicit constexpr varying_t(bool v = true) noexcept : value(v) {}
    constexpr explicit operator bool() const { return value; }
    constexpr varying_t operator~() const noexcept { return varying_t{! value}; }
    bool value;
};
inline constexpr varying_t varying{};
}
