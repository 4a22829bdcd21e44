// Minimal stand-in for takatori's time of day: nanoseconds since midnight.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::nanoseconds;
    static constexpr time_unit max_value = std::chrono::hours(24);
    constexpr time_of_day() noexcept = default;
    explicit constexpr time_of_day(time_unit elapsed) noexcept : elapsed_(wrap(elapsed.count())) {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = time_unit{}) noexcept :
        elapsed_(wrap((std::int64_t{h} * 3600 + std::int64_t{m} * 60 + s) * 1000000000LL + sub.count())) {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return time_unit{static_cast<std::int64_t>(elapsed_)}; }
    [[nodiscard]] constexpr time_unit subsecond() const noexcept { return time_unit{static_cast<std::int64_t>(elapsed_ % 1000000000ULL)}; }
    template <class R, class P>
    constexpr time_of_day& operator+=(std::chrono::duration<R, P> o) noexcept {
        elapsed_ = wrap(static_cast<std::int64_t>(elapsed_) + std::chrono::duration_cast<time_unit>(o % std::chrono::hours(24)).count());
        return *this;
    }
    template <class R, class P> constexpr time_of_day& operator-=(std::chrono::duration<R, P> o) noexcept { return *this += -o; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.elapsed_ == b.elapsed_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.elapsed_ != b.elapsed_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) noexcept { return a.elapsed_ < b.elapsed_; }
    friend constexpr bool operator<=(time_of_day a, time_of_day b) noexcept { return a.elapsed_ <= b.elapsed_; }
    friend constexpr bool operator>(time_of_day a, time_of_day b) noexcept { return a.elapsed_ > b.elapsed_; }
    friend constexpr bool operator>=(time_of_day a, time_of_day b) noexcept { return a.elapsed_ >= b.elapsed_; }
    friend std::ostream& operator<<(std::ostream& out, time_of_day v) { return out << v.elapsed_ << "ns"; }
private:
    std::uint64_t elapsed_{};
    static constexpr std::uint64_t wrap(std::int64_t v) {
        constexpr std::int64_t day = 86400LL * 1000000000LL;
        v %= day;
        return static_cast<std::uint64_t>(v < 0 ? v + day : v);
    }
};
template <class R, class P> inline constexpr time_of_day operator+(time_of_day a, std::chrono::duration<R, P> b) { return a += b; }
template <class R, class P> inline constexpr time_of_day operator-(time_of_day a, std::chrono::duration<R, P> b) { return a -= b; }
}
namespace std {
template <> struct hash<takatori::datetime::time_of_day> {
    std::size_t operator()(takatori::datetime::time_of_day const& v) const noexcept { return std::hash<std::int64_t>{}(v.time_since_epoch().count()); }
};
}
