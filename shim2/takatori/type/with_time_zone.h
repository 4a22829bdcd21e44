#pragma once
namespace takatori::type {
struct with_time_zone_t {
    explicit constexpr with_time_zone_t() = default;
    explicit constexpr with_time_zone_t(bool v) : value(v) {}
    constexpr with_time_zone_t operator!() const { return with_time_zone_t{! value}; }
    constexpr bool operator~() const { return ! value; }
    bool value{true};
};
inline constexpr with_time_zone_t with_time_zone{};
}
