// Minimal stand-in for takatori's time point: seconds since the epoch and nanoseconds within the second.
#pragma once
#include <chrono>
#include <cstdint>
#include <functional>
#include <ostream>
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t, std::ratio<1>>;
    using difference_type = std::chrono::nanoseconds;
    using subsecond_unit = std::chrono::nanoseconds;
    static constexpr offset_type min_offset{std::numeric_limits<std::int64_t>::min()};
    static constexpr offset_type max_offset{std::numeric_limits<std::int64_t>::max()};
    constexpr time_point() noexcept = default;
    explicit constexpr time_point(offset_type offset, difference_type adjustment = {}) noexcept : offset_(offset.count()), adj_(adjustment.count()) {
        constexpr std::int64_t g = 1000000000LL;
        if (adj_ < 0 || adj_ >= g) {
            auto q = adj_ / g;
            auto m = adj_ % g;
            if (m < 0) { m += g; --q; }
            offset_ += q;
            adj_ = m;
        }
    }
    explicit constexpr time_point(class date d, time_of_day t = {}) noexcept :
        offset_(d.days_since_epoch() * 86400 + t.time_since_epoch().count() / 1000000000LL), adj_(t.time_since_epoch().count() % 1000000000LL) {}
    template <class Duration>
    explicit constexpr time_point(std::chrono::time_point<std::chrono::system_clock, Duration> t) noexcept :
        time_point(offset_type{0}, std::chrono::duration_cast<difference_type>(t.time_since_epoch())) {}
    [[nodiscard]] constexpr class date date() const noexcept {
        auto q = offset_ / 86400;
        if (offset_ % 86400 < 0) --q;
        return takatori::datetime::date{q};
    }
    [[nodiscard]] constexpr time_of_day time() const noexcept {
        auto m = offset_ % 86400;
        if (m < 0) m += 86400;
        return time_of_day{difference_type{m * 1000000000LL + adj_}};
    }
    [[nodiscard]] constexpr offset_type seconds_since_epoch() const noexcept { return offset_type{offset_}; }
    [[nodiscard]] constexpr difference_type subsecond() const noexcept { return difference_type{adj_}; }
    template <class R, class P>
    constexpr time_point& operator+=(std::chrono::duration<R, P> o) noexcept {
        // whole seconds first, so that large offsets do not leave the range of nanoseconds
        auto sec = std::chrono::duration_cast<offset_type>(o);
        auto sub = std::chrono::duration_cast<difference_type>(o - sec);
        return *this = time_point{offset_type{offset_ + sec.count()}, difference_type{adj_ + sub.count()}};
    }
    template <class R, class P> constexpr time_point& operator-=(std::chrono::duration<R, P> o) noexcept { return *this += -o; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.offset_ == b.offset_ && a.adj_ == b.adj_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend constexpr bool operator<(time_point a, time_point b) noexcept { return a.offset_ != b.offset_ ? a.offset_ < b.offset_ : a.adj_ < b.adj_; }
    friend constexpr bool operator>(time_point a, time_point b) noexcept { return b < a; }
    friend constexpr bool operator<=(time_point a, time_point b) noexcept { return !(b < a); }
    friend constexpr bool operator>=(time_point a, time_point b) noexcept { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& out, time_point v) { return out << v.offset_ << "s" << v.adj_ << "ns"; }
private:
    std::int64_t offset_{};
    std::int64_t adj_{};
};
template <class D> inline constexpr time_point operator+(time_point a, D b) { return a += b; }
template <class D> inline constexpr time_point operator-(time_point a, D b) { return a -= b; }
}
namespace std {
template <> struct hash<takatori::datetime::time_point> {
    std::size_t operator()(takatori::datetime::time_point const& v) const noexcept {
        return std::hash<std::int64_t>{}(v.seconds_since_epoch().count()) * 31 + std::hash<std::int64_t>{}(v.subsecond().count());
    }
};
}
