#pragma once
namespace yugawara::variable {
class nullity {
public:
    constexpr explicit nullity(bool v = true) noexcept : v_(v) {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return v_; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return v_; }
    constexpr nullity operator~() const noexcept { return nullity{! v_}; }
private:
    bool v_;
};
inline constexpr nullity nullable{true};
}
