// Minimal stand-in: a signed number of nanoseconds.
#pragma once
#include <chrono>
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class time_interval {
public:
    using time_unit = std::chrono::nanoseconds;
    constexpr time_interval() noexcept = default;
    explicit constexpr time_interval(time_unit v) noexcept : v_(v.count()) {}
    [[nodiscard]] constexpr time_unit offset() const noexcept { return time_unit{v_}; }
    friend constexpr bool operator==(time_interval a, time_interval b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(time_interval a, time_interval b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, time_interval v) { return out << v.v_ << "ns"; }
private:
    std::int64_t v_{};
};
}
