// Minimal stand-in for takatori's decimal triple: sign, 128 bit coefficient, decimal exponent.
#pragma once
#include <cstdint>
#include <decimal.hh>
#include <stdexcept>
#include <functional>
#include <ostream>
#include <string>
namespace takatori::decimal {
class triple {
public:
    static constexpr std::size_t max_decimal_digits = 38;
    constexpr triple() noexcept = default;
    constexpr triple(std::int32_t sign, std::uint64_t high, std::uint64_t low, std::int32_t exponent) noexcept :
        high_(high), low_(low), sign_((high | low) == 0 ? 0 : sign < 0 ? -1 : 1), exponent_(exponent) {}
    constexpr triple(std::int64_t coefficient, std::int32_t exponent = 0) noexcept :
        low_(coefficient < 0 ? ~static_cast<std::uint64_t>(coefficient) + 1 : static_cast<std::uint64_t>(coefficient)),
        sign_(coefficient < 0 ? -1 : coefficient > 0 ? 1 : 0), exponent_(exponent) {}
    explicit triple(::decimal::Decimal const& v) {
        auto t = v.as_uint128_triple();
        if (t.tag != MPD_TRIPLE_NORMAL) throw std::domain_error("decimal value is out of the range of triple");
        if (t.exp < INT32_MIN || t.exp > INT32_MAX) throw std::domain_error("decimal exponent is out of the range of triple");
        *this = triple(t.sign != 0 ? -1 : 1, t.hi, t.lo, static_cast<std::int32_t>(t.exp));
    }
    explicit operator ::decimal::Decimal() const {
        return ::decimal::Decimal(mpd_uint128_triple_t{MPD_TRIPLE_NORMAL, static_cast<std::uint8_t>(sign_ < 0 ? 1 : 0), high_, low_, exponent_});
    }
    [[nodiscard]] constexpr std::int32_t sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return high_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return low_; }
    [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return exponent_; }
    friend constexpr bool operator==(triple const& a, triple const& b) noexcept {
        return a.sign_ == b.sign_ && a.high_ == b.high_ && a.low_ == b.low_ && a.exponent_ == b.exponent_;
    }
    friend constexpr bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple const& v) {
        return out << "triple(" << v.sign_ << "," << v.high_ << ":" << v.low_ << "e" << v.exponent_ << ")";
    }
private:
    std::uint64_t high_{};
    std::uint64_t low_{};
    std::int32_t sign_{};
    std::int32_t exponent_{};
};
}
namespace std {
template <> struct hash<takatori::decimal::triple> {
    std::size_t operator()(takatori::decimal::triple const& v) const noexcept {
        return ((v.coefficient_high() * 31 + v.coefficient_low()) * 31 + static_cast<std::size_t>(v.sign() + 1)) * 31 + static_cast<std::size_t>(v.exponent());
    }
};
}
