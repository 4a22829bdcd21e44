// Minimal stand-in for takatori's date: days since 1970-01-01 in the proleptic Gregorian calendar.
#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    explicit constexpr date(difference_type offset) noexcept : elapsed_(offset) {}
    constexpr date(std::int32_t year, std::uint32_t month, std::uint32_t day) noexcept : elapsed_(days(year, month, day)) {}
    [[nodiscard]] constexpr difference_type days_since_epoch() const noexcept { return elapsed_; }
    constexpr date& operator+=(difference_type o) noexcept { elapsed_ += o; return *this; }
    constexpr date& operator-=(difference_type o) noexcept { elapsed_ -= o; return *this; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.elapsed_ == b.elapsed_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.elapsed_ != b.elapsed_; }
    friend constexpr bool operator<(date a, date b) noexcept { return a.elapsed_ < b.elapsed_; }
    friend constexpr bool operator<=(date a, date b) noexcept { return a.elapsed_ <= b.elapsed_; }
    friend constexpr bool operator>(date a, date b) noexcept { return a.elapsed_ > b.elapsed_; }
    friend constexpr bool operator>=(date a, date b) noexcept { return a.elapsed_ >= b.elapsed_; }
    friend std::ostream& operator<<(std::ostream& out, date v) { return out << v.elapsed_ << "d"; }
private:
    difference_type elapsed_{};
    static constexpr difference_type days(std::int64_t y, std::int64_t m, std::int64_t d) {
        y -= m <= 2;
        auto era = (y >= 0 ? y : y - 399) / 400;
        auto yoe = y - era * 400;
        auto doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
        auto doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 719468;
    }
};
}
namespace std {
template <> struct hash<takatori::datetime::date> {
    std::size_t operator()(takatori::datetime::date const& v) const noexcept { return std::hash<std::int64_t>{}(v.days_since_epoch()); }
};
}
