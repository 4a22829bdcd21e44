#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <takatori/util/either.h>
// Stand-in for takatori's text to temporal conversion:
//   date ::= [-] digits - digits - digits ; time ::= h : m [ : s [ . fraction(1..9) ] ]
//   datetime ::= date [ (' '+|'T') time ] [ 'Z' | (+|-) hh : mm | (+|-) hhmm ]
namespace takatori::datetime {
struct date_info { std::uint32_t year; std::uint32_t month; std::uint32_t day; };
struct time_info { std::uint32_t hour; std::uint32_t minute; std::uint32_t second; std::chrono::nanoseconds subsecond; };
struct zone_offset_info { bool plus; std::uint32_t hour; std::uint32_t minute; };
struct datetime_info { date_info date; time_info time; std::optional<zone_offset_info> offset; };
template<class T> using conversion_result = util::either<std::string, T>;

namespace impl {
struct scan {
    std::string_view s; std::size_t p = 0;
    bool end() const { return p >= s.size(); }
    bool eat(char c) { if (!end() && s[p] == c) { ++p; return true; } return false; }
    bool num(std::uint32_t& out, int maxdigits) {
        std::uint64_t v = 0; int n = 0;
        while (!end() && s[p] >= '0' && s[p] <= '9' && n < maxdigits) { v = v * 10 + (s[p] - '0'); ++p; ++n; }
        out = static_cast<std::uint32_t>(v);
        return n > 0;
    }
    static bool leap(std::uint32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    bool date(date_info& d) {
        if (!num(d.year, 6) || !eat('-') || !num(d.month, 2) || !eat('-') || !num(d.day, 2)) return false;
        if (d.month < 1 || d.month > 12 || d.day < 1) return false;
        static constexpr int n[] = {31,28,31,30,31,30,31,31,30,31,30,31};
        return d.day <= static_cast<std::uint32_t>(n[d.month - 1] + (d.month == 2 && leap(d.year)));
    }
    bool time(time_info& t) {
        t = {};
        if (!num(t.hour, 2) || !eat(':') || !num(t.minute, 2)) return false;
        if (eat(':')) {
            if (!num(t.second, 2)) return false;
            if (eat('.')) {
                std::uint64_t v = 0; int k = 0;
                while (!end() && s[p] >= '0' && s[p] <= '9' && k < 9) { v = v * 10 + (s[p] - '0'); ++p; ++k; }
                if (k == 0) return false;
                for (; k < 9; ++k) v *= 10;
                t.subsecond = std::chrono::nanoseconds{v};
            }
        }
        return t.hour < 24 && t.minute < 60 && t.second < 60;
    }
};
}
inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::scan c{s}; date_info d{};
    if (!c.date(d) || !c.end()) return std::string{"invalid date"};
    return d;
}
inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::scan c{s}; time_info t{};
    if (!c.time(t) || !c.end()) return std::string{"invalid time"};
    return t;
}
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::scan c{s}; datetime_info r{};
    if (!c.date(r.date)) return std::string{"invalid date"};
    bool sep = false;
    if (c.eat('T')) sep = true; else while (c.eat(' ')) sep = true;
    if (sep && !c.time(r.time)) return std::string{"invalid time"};
    if (!c.end()) {
        zone_offset_info z{true, 0, 0};
        if (c.eat('Z')) { }
        else {
            if (c.eat('+')) z.plus = true; else if (c.eat('-')) z.plus = false; else return std::string{"invalid offset"};
            if (!c.num(z.hour, 2)) return std::string{"invalid offset"};
            if (c.eat(':') || !c.end()) { if (!c.num(z.minute, 2)) return std::string{"invalid offset"}; }
            if (z.hour > 24 || z.minute > 59) return std::string{"invalid offset"};
        }
        r.offset = z;
    }
    if (!c.end()) return std::string{"trailing characters"};
    return r;
}
}
