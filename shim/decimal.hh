// Stand-in for libmpdec++ (decimal.hh) on top of GMP: the part jogasaki uses, with libmpdec's
// rounding, status flags and formatting.  Traps are not modelled: operations only set flags.
// Checked against CPython's decimal module (which embeds libmpdec) by shim/validate/check_decimal.py.
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

enum { MPD_ROUND_UP, MPD_ROUND_DOWN, MPD_ROUND_CEILING, MPD_ROUND_FLOOR, MPD_ROUND_HALF_UP,
       MPD_ROUND_HALF_DOWN, MPD_ROUND_HALF_EVEN, MPD_ROUND_05UP, MPD_ROUND_TRUNC };
#define MPD_Clamped 0x00000001U
#define MPD_Conversion_syntax 0x00000002U
#define MPD_Division_by_zero 0x00000004U
#define MPD_Division_impossible 0x00000008U
#define MPD_Division_undefined 0x00000010U
#define MPD_Fpu_Error 0x00000020U
#define MPD_Inexact 0x00000040U
#define MPD_Invalid_context 0x00000080U
#define MPD_Invalid_operation 0x00000100U
#define MPD_Malloc_error 0x00000200U
#define MPD_Not_implemented 0x00000400U
#define MPD_Overflow 0x00000800U
#define MPD_Rounded 0x00001000U
#define MPD_Subnormal 0x00002000U
#define MPD_Underflow 0x00004000U
#define MPD_IEEE_Invalid_operation (MPD_Conversion_syntax | MPD_Division_impossible | MPD_Division_undefined | \
    MPD_Fpu_Error | MPD_Invalid_context | MPD_Invalid_operation | MPD_Malloc_error)
#define MPD_Errors (MPD_IEEE_Invalid_operation | MPD_Division_by_zero)
#define MPD_TRIPLE_NORMAL 0
#define MPD_TRIPLE_INF 1
#define MPD_TRIPLE_ERROR 4

typedef std::int64_t mpd_ssize_t;
struct mpd_uint128_triple_t {
    int tag;
    std::uint8_t sign;
    std::uint64_t hi;
    std::uint64_t lo;
    std::int64_t exp;
};

namespace decimal {

class Context {
public:
    Context() = default;
    std::int64_t prec() const { return prec_; }
    std::int64_t emax() const { return emax_; }
    std::int64_t emin() const { return emin_; }
    int round() const { return round_; }
    int clamp() const { return clamp_; }
    std::uint32_t status() const { return status_; }
    std::uint32_t traps() const { return 0; }
    void prec(std::int64_t v) { prec_ = v; }
    void emax(std::int64_t v) { emax_ = v; }
    void emin(std::int64_t v) { emin_ = v; }
    void round(int v) {
        if (v < 0 || v > MPD_ROUND_TRUNC) throw std::invalid_argument("valid values for rounding are: ...");
        round_ = v;
    }
    void clamp(int v) { clamp_ = v; }
    void status(std::uint32_t v) { status_ = v; }
    void traps(std::uint32_t) {}
    void clear_status() { status_ = 0; }
    void add_status(std::uint32_t v) { status_ |= v; }
    void raise(std::uint32_t v) { status_ |= v; }
    std::string repr() const {
        return "Context(prec=" + std::to_string(prec_) + ", emax=" + std::to_string(emax_) + ", emin=" +
            std::to_string(emin_) + ", round=" + std::to_string(round_) + ", clamp=" + std::to_string(clamp_) +
            ", status=" + std::to_string(status_) + ")";
    }
private:
    std::int64_t prec_{16};
    std::int64_t emax_{999999};
    std::int64_t emin_{-999999};
    int round_{MPD_ROUND_HALF_EVEN};
    int clamp_{0};
    std::uint32_t status_{0};
};
inline thread_local Context context{};
inline Context context_template{};
inline Context IEEEContext(int bits) {
    Context c{};
    c.prec(9 * (bits / 32) - 2);
    std::int64_t e = 3 * (std::int64_t{1} << (bits / 16 + 3));
    c.emax(e);
    c.emin(1 - e);
    c.round(MPD_ROUND_HALF_EVEN);
    c.clamp(1);
    return c;
}

class Decimal {
    enum kind_t { finite, infinite, quiet, signaling };
    struct raw { std::int64_t digits; };
public:
    Decimal() : kind_(quiet) {}     // as in libmpdec++: the default constructed value is NaN
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
    Decimal(T v) : neg_(v < 0) {
        if constexpr (std::is_signed_v<T>) {
            c_ = mpz_class(static_cast<long>(v));
            if (c_ < 0) c_ = -c_;
        } else {
            c_ = mpz_class(static_cast<unsigned long>(v));
        }
    }
    explicit Decimal(char const* s) { parse(s); }
    explicit Decimal(std::string const& s) { parse(s); }
    Decimal(mpd_uint128_triple_t const& t) : neg_(t.sign != 0), exp_(t.exp) {
        c_ = mpz_class(static_cast<unsigned long>(t.hi));
        c_ <<= 64;
        c_ += mpz_class(static_cast<unsigned long>(t.lo));
    }
    static Decimal make(bool neg, mpz_class c, std::int64_t exp) {
        Decimal r{0};
        r.neg_ = neg;
        r.c_ = std::move(c);
        r.exp_ = exp;
        return r;
    }

    bool isnan() const { return kind_ == quiet || kind_ == signaling; }
    bool isqnan() const { return kind_ == quiet; }
    bool issnan() const { return kind_ == signaling; }
    bool isinfinite() const { return kind_ == infinite; }
    bool isinf() const { return kind_ == infinite; }
    bool isspecial() const { return kind_ != finite; }
    bool isfinite() const { return kind_ == finite; }
    bool iszero() const { return kind_ == finite && c_ == 0; }
    bool issigned() const { return neg_; }
    int sign() const { return neg_ ? -1 : 1; }
    std::int64_t exponent() const { return exp_; }
    std::int64_t digits() const { return static_cast<std::int64_t>(c_ == 0 ? 1 : c_.get_str().size()); }
    std::int64_t adjexp() const { return exp_ + digits() - 1; }
    Decimal coeff() const { return make(false, c_, 0); }
    raw const* get() const { raw_.digits = digits(); return &raw_; }
    raw const* getconst() const { return get(); }
    mpz_class const& coefficient() const { return c_; }

    Decimal operator-() const {
        if (isnan()) return *this;
        Decimal r{*this};
        r.neg_ = iszero() ? !neg_ && context.round() == MPD_ROUND_FLOOR : !neg_;
        r.fin(context);
        return r;
    }
    Decimal operator+() const { Decimal r{*this}; if (r.iszero()) r.neg_ = context.round() == MPD_ROUND_FLOOR; r.fin(context); return r; }
    Decimal abs() const { Decimal r{*this}; r.neg_ = false; r.fin(context); return r; }
    Decimal copy_sign(Decimal const& o) const { Decimal r{*this}; r.neg_ = o.neg_; return r; }
    Decimal copy_abs() const { Decimal r{*this}; r.neg_ = false; return r; }
    Decimal copy_negate() const { Decimal r{*this}; r.neg_ = !neg_; return r; }

    friend Decimal operator+(Decimal const& a, Decimal const& b) { return addsub(a, b, b.neg_); }
    friend Decimal operator-(Decimal const& a, Decimal const& b) { return addsub(a, b, !b.neg_); }
    friend Decimal operator*(Decimal const& a, Decimal const& b) {
        Decimal n;
        if (nans(a, b, n)) return n;
        bool s = a.neg_ != b.neg_;
        if (a.isinf() || b.isinf()) {
            if (a.iszero() || b.iszero()) return invalid(MPD_Invalid_operation);
            return inf(s);
        }
        Decimal r = make(s, a.c_ * b.c_, a.exp_ + b.exp_);
        r.fin(context);
        return r;
    }
    friend Decimal operator/(Decimal const& a, Decimal const& b) {
        Decimal n;
        if (nans(a, b, n)) return n;
        bool s = a.neg_ != b.neg_;
        if (a.isinf()) return b.isinf() ? invalid(MPD_Invalid_operation) : inf(s);
        if (b.isinf()) {
            context.raise(MPD_Clamped);
            return make(s, 0, context.emin() - (context.prec() - 1));
        }
        if (b.iszero()) {
            if (a.iszero()) return invalid(MPD_Division_undefined);
            context.raise(MPD_Division_by_zero);
            return inf(s);
        }
        std::int64_t ideal = a.exp_ - b.exp_;
        if (a.iszero()) {
            Decimal r = make(s, 0, ideal);
            r.fin(context);
            return r;
        }
        std::int64_t shift = (b.digits() - a.digits()) + context.prec() + 1;
        mpz_class x = a.c_, y = b.c_;
        if (shift > 0) x *= p10(shift); else y *= p10(-shift);
        mpz_class q = x / y, rem = x % y;
        std::int64_t e = ideal - shift;
        if (rem == 0) {
            while (e < ideal && q % 10 == 0) { q /= 10; ++e; }
        } else if (q % 5 == 0) {
            q += 1;
        }
        Decimal r = make(s, q, e);
        r.fin(context);
        return r;
    }
    friend Decimal operator%(Decimal const& a, Decimal const& b) {
        Decimal n;
        if (nans(a, b, n)) return n;
        if (a.isinf()) return invalid(MPD_Invalid_operation);
        if (b.isinf()) { Decimal r{a}; r.fin(context); return r; }
        if (b.iszero()) return invalid(a.iszero() ? MPD_Division_undefined : MPD_Invalid_operation);
        std::int64_t e = std::min(a.exp_, b.exp_);
        if (a.iszero()) { Decimal r = make(a.neg_, 0, e); r.fin(context); return r; }
        if (a.adjexp() - b.adjexp() > context.prec()) return invalid(MPD_Division_impossible);
        if (b.adjexp() > a.adjexp()) {      // the quotient is 0
            Decimal r = a;
            if (a.exp_ > b.exp_) { r.c_ *= p10(a.exp_ - e); r.exp_ = e; }
            r.fin(context);
            return r;
        }
        mpz_class x = a.c_ * p10(a.exp_ - e), y = b.c_ * p10(b.exp_ - e);
        mpz_class q = x / y;
        if (static_cast<std::int64_t>(q.get_str().size()) > context.prec() && q != 0) return invalid(MPD_Division_impossible);
        Decimal r = make(a.neg_, x % y, e);
        r.fin(context);
        return r;
    }
    Decimal& operator+=(Decimal const& o) { return *this = *this + o; }
    Decimal& operator-=(Decimal const& o) { return *this = *this - o; }
    Decimal& operator*=(Decimal const& o) { return *this = *this * o; }
    Decimal& operator/=(Decimal const& o) { return *this = *this / o; }

    friend bool operator==(Decimal const& a, Decimal const& b) {
        if (a.isnan() || b.isnan()) { if (a.issnan() || b.issnan()) context.raise(MPD_Invalid_operation); return false; }
        return cmp(a, b) == 0;
    }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return !(a == b); }
    friend bool operator<(Decimal const& a, Decimal const& b) { return ordered(a, b) && cmp(a, b) < 0; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return ordered(a, b) && cmp(a, b) > 0; }
    friend bool operator<=(Decimal const& a, Decimal const& b) { return ordered(a, b) && cmp(a, b) <= 0; }
    friend bool operator>=(Decimal const& a, Decimal const& b) { return ordered(a, b) && cmp(a, b) >= 0; }

    Decimal rescale(std::int64_t exp) const {
        if (isspecial()) return *this;
        if (exp > 1000000000000000000L || exp < -2000000000000000000L) return invalid(MPD_Invalid_operation);
        if (iszero()) return make(neg_, 0, exp);
        if (exp_ >= exp) {
            if (exp_ - exp > 10000000) return invalid(MPD_Invalid_operation);   // memory guard of the stand-in
            return make(neg_, c_ * p10(exp_ - exp), exp);
        }
        std::uint32_t st = MPD_Rounded;
        Decimal r = *this;
        r.shift_right(exp - exp_, context.round(), st);
        r.exp_ = exp;
        context.raise(st);
        return r;
    }
    Decimal quantize(Decimal const& o) const { return rescale(o.exp_); }
    Decimal reduce() const {
        Decimal n;
        if (nans(*this, Decimal{0}, n)) return n;
        if (isinf()) return *this;
        Decimal r = *this;
        r.fin(context);
        if (r.isspecial()) return r;
        if (r.c_ == 0) return make(r.neg_, 0, 0);
        std::int64_t top = context.clamp() ? context.emax() - (context.prec() - 1) : context.emax();
        while (r.exp_ < top && r.c_ % 10 == 0) { r.c_ /= 10; ++r.exp_; }
        return r;
    }
    Decimal to_integral_exact() const { return integral(true); }
    Decimal to_integral() const { return integral(false); }
    Decimal scaleb(Decimal const& n) const {
        Decimal m;
        if (nans(*this, n, m)) return m;
        std::int64_t k = n.i64();
        std::int64_t lim = 2 * (context.emax() + context.prec());
        if (k > lim || k < -lim) return invalid(MPD_Invalid_operation);
        if (isinf()) return *this;
        Decimal r = *this;
        r.exp_ += k;
        r.fin(context);
        return r;
    }
    std::int64_t i64() const {
        mpz_class v = integer();
        if (!v.fits_slong_p()) throw std::invalid_argument("cannot convert to int64_t");
        return v.get_si();
    }
    std::int32_t i32() const {
        mpz_class v = integer();
        if (!v.fits_sint_p()) throw std::invalid_argument("cannot convert to int32_t");
        return static_cast<std::int32_t>(v.get_si());
    }
    std::string to_sci(bool upper = true) const { return text(false, upper); }
    std::string to_eng(bool upper = true) const { return text(true, upper); }
    std::string repr(bool = true) const { return "Decimal(\"" + to_sci() + "\")"; }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& v) { return out << v.to_sci(); }
    mpd_uint128_triple_t as_uint128_triple() const {
        mpd_uint128_triple_t t{};
        if (isspecial() || mpz_sizeinbase(c_.get_mpz_t(), 2) > 128) {
            t.tag = isinf() ? MPD_TRIPLE_INF : MPD_TRIPLE_ERROR;
            return t;
        }
        t.tag = MPD_TRIPLE_NORMAL;
        t.sign = neg_ ? 1 : 0;
        mpz_class hi = c_ >> 64, lo = c_ - (hi << 64);
        t.hi = hi.get_ui();
        t.lo = lo.get_ui();
        t.exp = exp_;
        return t;
    }

private:
    kind_t kind_{finite};
    bool neg_{false};
    mpz_class c_{0};
    std::int64_t exp_{0};
    mutable raw raw_{};

    static mpz_class p10(std::int64_t n) {
        mpz_class r;
        mpz_ui_pow_ui(r.get_mpz_t(), 10, static_cast<unsigned long>(n));
        return r;
    }
    static Decimal inf(bool neg) { Decimal r{0}; r.kind_ = infinite; r.neg_ = neg; return r; }
    static Decimal invalid(std::uint32_t st) { context.raise(st); return Decimal{}; }
    static bool nans(Decimal const& a, Decimal const& b, Decimal& out) {
        if (!a.isnan() && !b.isnan()) return false;
        if (a.issnan() || b.issnan()) context.raise(MPD_Invalid_operation);
        out = a.issnan() ? a : b.issnan() ? b : a.isnan() ? a : b;
        out.kind_ = quiet;
        return true;
    }
    static bool ordered(Decimal const& a, Decimal const& b) {
        if (a.isnan() || b.isnan()) { context.raise(MPD_Invalid_operation); return false; }
        return true;
    }
    static int cmp(Decimal const& a, Decimal const& b) {
        if (a.iszero() && b.iszero()) return 0;
        int sa = a.iszero() ? 0 : a.sign(), sb = b.iszero() ? 0 : b.sign();
        if (sa != sb) return sa < sb ? -1 : 1;
        if (a.isinf() || b.isinf()) return a.isinf() && b.isinf() ? 0 : a.isinf() ? sa : -sb;
        std::int64_t x = a.adjexp(), y = b.adjexp();
        if (x != y) return (x < y ? -1 : 1) * sa;
        std::int64_t e = std::min(a.exp_, b.exp_);
        mpz_class u = a.c_ * p10(a.exp_ - e), v = b.c_ * p10(b.exp_ - e);
        int r = ::cmp(u, v);
        return (r < 0 ? -1 : r > 0 ? 1 : 0) * sa;
    }
    static Decimal addsub(Decimal const& a, Decimal const& b, bool bneg) {
        Decimal n;
        if (nans(a, b, n)) return n;
        if (a.isinf() || b.isinf()) {
            if (a.isinf() && b.isinf()) return a.neg_ == bneg ? a : invalid(MPD_Invalid_operation);
            return a.isinf() ? a : inf(bneg);
        }
        std::int64_t e = std::min(a.exp_, b.exp_);
        mpz_class x, y;
        std::int64_t lim = 4 * context.prec() + 20;
        auto far = [&](Decimal const& big, Decimal const& small) {
            return !big.iszero() && big.exp_ - small.exp_ > lim && big.adjexp() - small.adjexp() > lim;
        };
        Decimal r{0};
        if ((far(a, b) && !b.iszero()) || (far(b, a) && !a.iszero())) {     // the smaller one only is a sticky digit
            bool ab = far(a, b);
            Decimal const& big = ab ? a : b;
            Decimal const& small = ab ? b : a;
            bool bigneg = ab ? a.neg_ : bneg, smallneg = ab ? bneg : a.neg_;
            mpz_class v = big.c_ * p10(lim);
            v += bigneg == smallneg ? 1 : -1;
            r = make(bigneg, v, big.exp_ - lim);
            (void) small;
        } else {
            x = a.c_ * p10(a.exp_ - e);
            y = b.c_ * p10(b.exp_ - e);
            if (a.neg_) x = -x;
            if (bneg) y = -y;
            mpz_class s = x + y;
            bool neg = s < 0;
            if (s == 0) neg = a.neg_ == bneg ? a.neg_ : context.round() == MPD_ROUND_FLOOR;
            if (s < 0) s = -s;
            r = make(neg, s, e);
        }
        r.fin(context);
        return r;
    }
    // drops n digits from the coefficient, rounding as asked; sets Inexact when something is lost
    void shift_right(std::int64_t n, int mode, std::uint32_t& st) {
        std::int64_t d = digits();
        mpz_class q, rem, unit;
        if (n > d + 1) {        // everything goes
            q = 0; rem = c_ == 0 ? 0 : 1; unit = 1000;
        } else {
            unit = p10(n); q = c_ / unit; rem = c_ % unit;
        }
        if (rem != 0) {
            st |= MPD_Inexact;
            int half = ::cmp(mpz_class(rem * 2), unit);
            bool up = false;
            switch (mode) {
                case MPD_ROUND_UP: up = true; break;
                case MPD_ROUND_CEILING: up = !neg_; break;
                case MPD_ROUND_FLOOR: up = neg_; break;
                case MPD_ROUND_HALF_UP: up = half >= 0; break;
                case MPD_ROUND_HALF_DOWN: up = half > 0; break;
                case MPD_ROUND_HALF_EVEN: up = half > 0 || (half == 0 && q % 2 != 0); break;
                case MPD_ROUND_05UP: up = q % 5 == 0; break;
                default: break;
            }
            if (up) q += 1;
        }
        c_ = q;
    }
    void fin(Context& ctx) {
        if (isspecial()) return;
        std::uint32_t st = 0;
        std::int64_t etiny = ctx.emin() - (ctx.prec() - 1);
        std::int64_t etop = ctx.emax() - (ctx.prec() - 1);
        if (c_ == 0) {
            std::int64_t top = ctx.clamp() ? etop : ctx.emax();
            if (exp_ < etiny) { exp_ = etiny; st |= MPD_Clamped; }
            else if (exp_ > top) { exp_ = top; st |= MPD_Clamped; }
            ctx.raise(st);
            return;
        }
        bool subnormal = adjexp() < ctx.emin();
        std::int64_t drop = 0;
        if (subnormal) drop = std::max<std::int64_t>(0, etiny - exp_);
        else drop = std::max<std::int64_t>(0, digits() - ctx.prec());
        if (drop > 0) {
            st |= MPD_Rounded;
            shift_right(drop, ctx.round(), st);
            exp_ += drop;
            if (digits() > ctx.prec()) { c_ /= 10; ++exp_; }
        }
        if (subnormal) {
            st |= MPD_Subnormal;
            if (st & MPD_Inexact) st |= MPD_Underflow;
            if (c_ == 0) st |= MPD_Clamped;
        }
        if (c_ != 0 && adjexp() > ctx.emax()) {
            st |= MPD_Overflow | MPD_Inexact | MPD_Rounded;
            bool toinf = true;
            switch (ctx.round()) {
                case MPD_ROUND_DOWN: case MPD_ROUND_TRUNC: case MPD_ROUND_05UP: toinf = false; break;
                case MPD_ROUND_CEILING: toinf = !neg_; break;
                case MPD_ROUND_FLOOR: toinf = neg_; break;
                default: break;
            }
            if (toinf) { kind_ = infinite; c_ = 0; exp_ = 0; }
            else { c_ = p10(ctx.prec()) - 1; exp_ = etop; }
        } else if (ctx.clamp() && exp_ > etop) {
            st |= MPD_Clamped;
            c_ *= p10(exp_ - etop);
            exp_ = etop;
        }
        ctx.raise(st);
    }
    Decimal integral(bool flags) const {
        Decimal n;
        if (nans(*this, Decimal{0}, n)) return n;
        if (isinf() || exp_ >= 0) return *this;
        if (iszero()) return make(neg_, 0, 0);
        std::uint32_t st = MPD_Rounded;
        Decimal r = *this;
        r.shift_right(-exp_, context.round(), st);
        r.exp_ = 0;
        if (flags) context.raise(st);
        return r;
    }
    mpz_class integer() const {
        if (isspecial()) throw std::invalid_argument("not an integer");
        mpz_class v;
        if (c_ == 0) return 0;
        if (exp_ >= 0) {
            if (adjexp() > 30) throw std::invalid_argument("integer out of range");
            v = c_ * p10(exp_);
        } else {
            if (-exp_ > digits()) throw std::invalid_argument("not an integer");
            mpz_class u = p10(-exp_);
            if (c_ % u != 0) throw std::invalid_argument("not an integer");
            v = c_ / u;
        }
        return neg_ ? mpz_class(-v) : v;
    }
    void bad() { kind_ = quiet; neg_ = false; c_ = 0; exp_ = 0; context.raise(MPD_Conversion_syntax); }
    static bool iequal(std::string const& a, char const* b) {
        std::size_t i = 0;
        for (; i < a.size() && b[i] != 0; ++i) if ((a[i] | 0x20) != b[i]) return false;
        return i == a.size() && b[i] == 0;
    }
    void parse(std::string const& str) {
        std::string s = str.c_str();        // as the C interface: ends at the first NUL
        std::size_t i = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        std::string rest = s.substr(i);
        if (iequal(rest, "inf") || iequal(rest, "infinity")) { kind_ = infinite; return; }
        for (char const* p : {"nan", "snan"}) {
            std::size_t n = p[0] == 's' ? 4 : 3;
            if (rest.size() >= n && iequal(rest.substr(0, n), p)) {
                for (char c : rest.substr(n)) if (c < '0' || c > '9') return bad();
                kind_ = n == 4 ? signaling : quiet;
                return;
            }
        }
        std::string digits;
        std::int64_t frac = 0;
        bool dot = false, any = false;
        std::size_t j = 0;
        for (; j < rest.size(); ++j) {
            char c = rest[j];
            if (c >= '0' && c <= '9') { digits += c; any = true; if (dot) ++frac; }
            else if (c == '.' && !dot) dot = true;
            else break;
        }
        if (!any) return bad();
        std::int64_t e = 0;
        if (j < rest.size()) {
            if (rest[j] != 'e' && rest[j] != 'E') return bad();
            ++j;
            bool eneg = false;
            if (j < rest.size() && (rest[j] == '+' || rest[j] == '-')) { eneg = rest[j] == '-'; ++j; }
            if (j >= rest.size()) return bad();
            for (; j < rest.size(); ++j) {
                if (rest[j] < '0' || rest[j] > '9') return bad();
                if (e < 4000000000000000000L / 10) e = e * 10 + (rest[j] - '0');
                else e = 4000000000000000000L;
            }
            if (eneg) e = -e;
        }
        c_.set_str(digits, 10);
        exp_ = e - frac;
        std::int64_t const max = 999999999999999999L;
        if (c_ != 0 ? (adjexp() > max || exp_ < -1999999999999999997L) : (exp_ > max || exp_ < -1999999999999999997L)) {
            kind_ = quiet; neg_ = false; c_ = 0; exp_ = 0;
            context.raise(MPD_Invalid_operation);
        }
    }
    std::string text(bool eng, bool upper) const {
        std::string s = neg_ ? "-" : "";
        if (isinf()) return s + "Infinity";
        if (kind_ == quiet) return s + "NaN";
        if (kind_ == signaling) return s + "sNaN";
        std::string d = c_.get_str();
        std::int64_t n = static_cast<std::int64_t>(d.size());
        std::int64_t dp = exp_ + n;         // position of the point, from the left
        std::int64_t place = 1;
        if (exp_ <= 0 && dp > -6) {
            place = dp;
        } else if (eng) {
            std::int64_t m = (dp - 1) % 3;
            if (m < 0) m += 3;
            if (d == "0") place = 1 + 0 * m, place = ((dp + 1) % 3 + 3) % 3 - 1, place = place;
            else place = m + 1;
        }
        std::string out;
        if (place <= 0) out = "0." + std::string(static_cast<std::size_t>(-place), '0') + d;
        else if (place >= n) out = d + std::string(static_cast<std::size_t>(place - n), '0');
        else out = d.substr(0, static_cast<std::size_t>(place)) + "." + d.substr(static_cast<std::size_t>(place));
        if (dp != place) {
            std::int64_t e = dp - place;
            out += upper ? "E" : "e";
            out += e < 0 ? "-" : "+";
            out += std::to_string(e < 0 ? -e : e);
        }
        return s + out;
    }
};
}
