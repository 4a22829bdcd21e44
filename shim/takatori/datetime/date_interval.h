// Minimal stand-in: years, months and days.
#pragma once
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class date_interval {
public:
    constexpr date_interval() noexcept = default;
    constexpr date_interval(std::int32_t y, std::int32_t m, std::int32_t d) noexcept : y_(y), m_(m), d_(d) {}
    [[nodiscard]] constexpr std::int32_t year() const noexcept { return y_; }
    [[nodiscard]] constexpr std::int32_t month() const noexcept { return m_; }
    [[nodiscard]] constexpr std::int32_t day() const noexcept { return d_; }
    friend constexpr bool operator==(date_interval a, date_interval b) noexcept { return a.y_ == b.y_ && a.m_ == b.m_ && a.d_ == b.d_; }
    friend constexpr bool operator!=(date_interval a, date_interval b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, date_interval v) { return out << v.y_ << "y" << v.m_ << "m" << v.d_ << "d"; }
private:
    std::int32_t y_{}, m_{}, d_{};
};
}
