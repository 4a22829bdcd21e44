// Independent model of SQL scalar values and arithmetic, used by the evaluator harnesses.
#pragma once
#include "rec.h"
#include <gmpxx.h>
#include <jogasaki/executor/expr/error.h>

namespace sv {
using rec::kind;
using rec::triple;
using rec::val;
using rec::fdesc;
enum class ek { none, arith, other };

// a SQL value of some kind, null, error, or "nothing is promised" (open)
struct V {
    kind k{kind::int4};
    val v{};            // v.null is the null flag
    ek err{ek::none};
    bool open{false};
    bool ok() const { return err == ek::none && !open; }
    static V null(kind k) { V r; r.k = k; return r; }
    static V error(kind k, ek e) { V r; r.k = k; r.err = e; return r; }
    static V opened(kind k) { V r; r.k = k; r.open = true; return r; }
    static V of(kind k, val v) { V r; r.k = k; r.v = std::move(v); return r; }
    static V b(bool x) { val v; v.null = false; v.i = x; return of(kind::boolean, v); }
    static V i(kind k, std::int64_t x) { val v; v.null = false; v.i = x; return of(k, v); }
    static V d(kind k, double x) { val v; v.null = false; v.d = x; return of(k, v); }
    static V dec(triple t) { val v; v.null = false; v.t = t; return of(kind::decimal, v); }
    static V str(std::string s) { val v; v.null = false; v.s = std::move(s); return of(kind::character, v); }
    std::string print() const {
        if (open) return "?";
        if (err != ek::none) return err == ek::arith ? "arithmetic_error" : "error";
        fdesc f; f.k = k;
        return std::string{jogasaki::meta::to_string_view(k)} + ":" + v.str(f);
    }
};

// an exact decimal c * 10^e
struct D { mpz_class c; std::int64_t e; };
inline D d_of(triple const& t) { return {rec::coeff(t), t.exponent()}; }
inline long digits(mpz_class c) { if (c < 0) c = -c; return c == 0 ? 1 : static_cast<long>(mpz_class(c).get_str().size()); }
inline mpz_class scale10(mpz_class const& c, std::int64_t n) { return c * rec::p10(static_cast<unsigned long>(n)); }
inline constexpr long prec = 38;
inline constexpr long emax = 24576;
// division with a chosen rounding
inline mpz_class round_div(mpz_class const& n, mpz_class const& d, bool half_even) {
    mpz_class q, r;
    mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t());
    if (!half_even || r == 0) return q;
    mpz_class twice = abs(r) * 2, ad = abs(d);
    bool up = twice > ad || (twice == ad && mpz_odd_p(q.get_mpz_t()));
    if (up) q += ((n < 0) != (d < 0)) ? -1 : 1;
    return q;
}
// round to 38 digits, half to even; overflow and anything below the normal range are reported as such
inline V fin(D x) {
    long n = digits(x.c);
    if (n > prec) {
        mpz_class q = round_div(x.c, rec::p10(static_cast<unsigned long>(n - prec)), true);
        x.e += n - prec;
        if (digits(q) > prec) { q /= 10; x.e += 1; }
        x.c = q;
        n = digits(x.c);
    }
    if (x.c != 0) {
        if (x.e + n - 1 > emax) return V::error(kind::decimal, ek::arith);
        if (x.e + n - 1 < -(emax - 1)) return V::opened(kind::decimal);      // subnormal
        if (x.e > emax - (prec - 1)) return V::opened(kind::decimal);        // may be folded down
        if (x.e < -(emax - 1)) return V::opened(kind::decimal);
    } else if (x.e > emax - (prec - 1) || x.e < -(emax - 1)) return V::opened(kind::decimal);
    return V::dec(rec::make_triple(x.c, static_cast<std::int32_t>(x.e)));
}
inline void align(D& a, D& b) {
    if (a.e > b.e) { a.c = scale10(a.c, a.e - b.e); a.e = b.e; }
    else { b.c = scale10(b.c, b.e - a.e); b.e = a.e; }
}
inline V d_add(D a, D b, bool sub) { align(a, b); return fin({sub ? mpz_class(a.c - b.c) : mpz_class(a.c + b.c), a.e}); }
inline V d_mul(D a, D b) { return fin({a.c * b.c, a.e + b.e}); }
inline V d_div(D a, D b) {
    if (b.c == 0) return V::error(kind::decimal, ek::arith);
    std::int64_t ideal = a.e - b.e;
    if (a.c == 0) return fin({0, ideal});
    // enough digits for 38 significant ones and a sticky remainder
    long up = std::max<long>(0, prec + 3 + digits(b.c) - digits(a.c));
    mpz_class n = scale10(a.c, up), q, r;
    mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), b.c.get_mpz_t());
    std::int64_t e = ideal - up;
    if (r != 0) {
        bool neg = (a.c < 0) != (b.c < 0);
        q = q * 10 + (neg ? -1 : 1);            // sticky digit
        return fin({q, e - 1});
    }
    while (e < ideal && q % 10 == 0) { q /= 10; ++e; }
    return fin({q, e});
}
inline V d_rem(D a, D b) {
    if (b.c == 0) return V::error(kind::decimal, ek::arith);
    align(a, b);
    mpz_class q, r;
    mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.c.get_mpz_t(), b.c.get_mpz_t());
    if (digits(q) > prec) return V::error(kind::decimal, ek::arith);
    return fin({r, a.e});
}
// nearest double; out of its normal range: infinity, or zero, as documented for conversions to floating point
inline double d_double(triple const& t) {
    std::string s = rec::coeff(t).get_str() + "e" + std::to_string(t.exponent());
    double d = std::strtod(s.c_str(), nullptr);
    if (std::fabs(d) < std::numeric_limits<double>::min()) return std::copysign(0.0, t.sign() < 0 ? -1.0 : 1.0);
    return d;
}
inline bool is_num(kind k) { return k == kind::int4 || k == kind::int8 || k == kind::float4 || k == kind::float8 || k == kind::decimal; }
inline int rank(kind k) { return k == kind::int4 ? 0 : k == kind::int8 ? 1 : k == kind::decimal ? 2 : k == kind::float4 ? 3 : 4; }
// documented promotion: integers widen, with a decimal become decimal, with an approximate number become double
inline kind promoted(kind a, kind b) {
    if (a == b) return a;
    bool fa = a == kind::float4 || a == kind::float8, fb = b == kind::float4 || b == kind::float8;
    if (fa || fb) return kind::float8;
    return rank(a) > rank(b) ? a : b;
}
// NaN in a result of a computation is always the one quiet NaN (docs/internal/data_types.md)
inline double canonical(double d) { return std::isnan(d) ? std::numeric_limits<double>::quiet_NaN() : d; }
inline V to_kind(V const& v, kind k) {      // widening only; v is a plain value
    if (v.k == k) return v;
    if (v.v.null) return V::null(k);
    switch (k) {
        case kind::int8: return V::i(k, v.v.i);
        case kind::decimal: return V::dec(rec::make_triple(mpz_class(static_cast<long>(v.v.i)), 0));
        case kind::float4: case kind::float8:
            if (v.k == kind::decimal) return V::d(k, d_double(v.v.t));
            if (v.k == kind::float4 || v.k == kind::float8) return V::d(k, canonical(v.v.d));
            return V::d(k, static_cast<double>(v.v.i));
        default: std::abort();
    }
}
enum class op { add, sub, mul, div, rem };
inline V arith(op o, V const& a, V const& b) {
    kind k = promoted(a.k, b.k);
    if (a.v.null || b.v.null) return V::null(k);
    V x = to_kind(a, k), y = to_kind(b, k);
    switch (k) {
        case kind::int4: case kind::int8: {
            mpz_class p = static_cast<long>(x.v.i), q = static_cast<long>(y.v.i), r;
            switch (o) {
                case op::add: r = p + q; break;
                case op::sub: r = p - q; break;
                case op::mul: r = p * q; break;
                case op::div: if (q == 0) return V::error(k, ek::arith); r = p / q; break;
                case op::rem: if (q == 0) return V::error(k, ek::arith); r = p % q; break;
            }
            mpz_class lo = k == kind::int4 ? mpz_class(static_cast<long>(INT32_MIN)) : mpz_class(static_cast<long>(INT64_MIN));
            mpz_class hi = k == kind::int4 ? mpz_class(static_cast<long>(INT32_MAX)) : mpz_class(static_cast<long>(INT64_MAX));
            if (r < lo || r > hi) return V::error(k, ek::arith);
            return V::i(k, r.get_si());
        }
        case kind::float4: {
            volatile float p = static_cast<float>(x.v.d), q = static_cast<float>(y.v.d), r = 0;
            switch (o) {
                case op::add: r = p + q; break;
                case op::sub: r = p - q; break;
                case op::mul: r = p * q; break;
                case op::div: if (q == 0) return V::error(k, ek::arith); r = p / q; break;
                case op::rem: return V::error(k, ek::other);
            }
            return V::d(k, canonical(r));
        }
        case kind::float8: {
            volatile double p = x.v.d, q = y.v.d, r = 0;
            switch (o) {
                case op::add: r = p + q; break;
                case op::sub: r = p - q; break;
                case op::mul: r = p * q; break;
                case op::div: if (q == 0) return V::error(k, ek::arith); r = p / q; break;
                case op::rem: return V::error(k, ek::other);
            }
            return V::d(k, canonical(r));
        }
        default: {
            D p = d_of(x.v.t), q = d_of(y.v.t);
            switch (o) {
                case op::add: return d_add(p, q, false);
                case op::sub: return d_add(p, q, true);
                case op::mul: return d_mul(p, q);
                case op::div: return d_div(p, q);
                case op::rem: return d_rem(p, q);
            }
        }
    }
    std::abort();
}
inline int order(V const& a, V const& b) {      // plain values, not null
    kind k = is_num(a.k) ? promoted(a.k, b.k) : a.k;
    V x = to_kind(a, k), y = to_kind(b, k);
    fdesc f; f.k = k;
    return rec::compare(f, x.v, y.v);
}
// the same value, with the same sign of zero and the same scale
inline bool same(kind k, val const& a, val const& b) {
    if (a.null || b.null) return a.null == b.null;
    switch (k) {
        case kind::float4: case kind::float8:
            if (std::isnan(a.d) || std::isnan(b.d)) return std::isnan(a.d) && std::isnan(b.d) && std::signbit(a.d) == std::signbit(b.d);
            return a.d == b.d && std::signbit(a.d) == std::signbit(b.d);
        case kind::decimal: return rec::coeff(a.t) == rec::coeff(b.t) && a.t.exponent() == b.t.exponent();
        default: { fdesc f; f.k = k; return rec::compare(f, a, b) == 0; }
    }
}
// {kind of the result that any holds matches k}
inline bool holds(kind k, rec::any const& a) {
    using rec::any;
    switch (k) {
        case kind::boolean: return a.type_index() == any::index<bool>;
        case kind::int1: case kind::int2: case kind::int4: return a.type_index() == any::index<std::int32_t>;
        case kind::int8: return a.type_index() == any::index<std::int64_t>;
        case kind::float4: return a.type_index() == any::index<float>;
        case kind::float8: return a.type_index() == any::index<double>;
        case kind::decimal: return a.type_index() == any::index<triple>;
        case kind::character: return a.type_index() == any::index<jogasaki::accessor::text>;
        case kind::octet: return a.type_index() == any::index<jogasaki::accessor::binary>;
        case kind::date: return a.type_index() == any::index<rec::date>;
        case kind::time_of_day: return a.type_index() == any::index<rec::time_of_day>;
        case kind::time_point: return a.type_index() == any::index<rec::time_point>;
        default: return false;
    }
}
inline val val_of(kind k, rec::any const& a) {
    if (k == kind::boolean) { val v; v.null = false; v.i = a.to<bool>(); return v; }
    fdesc f; f.k = k;
    return rec::of_any(f, a);
}
// empty when as the model says; otherwise the difference
inline std::string differs(V const& want, rec::any const& got) {
    if (want.open) {
        if (!got.error() && !got.empty() && !holds(want.k, got)) return "result holds another type";
        return {};
    }
    auto show = [&] {
        if (got.error()) { std::ostringstream o; o << "error " << got.to<jogasaki::executor::expr::error>(); return o.str(); }
        if (got.empty()) return std::string{"null"};
        if (!holds(want.k, got)) return "a value of another type, index " + std::to_string(got.type_index());
        return V::of(want.k, val_of(want.k, got)).print();
    };
    if (want.err != ek::none) {
        if (!got.error()) return "expected " + want.print() + ", got " + show();
        if (want.err == ek::arith && got.to<jogasaki::executor::expr::error>().kind() != jogasaki::executor::expr::error_kind::arithmetic_error &&
            got.to<jogasaki::executor::expr::error>().kind() != jogasaki::executor::expr::error_kind::overflow)
            return "expected an arithmetic error, got " + show();
        return {};
    }
    if (got.error() || (got.empty() != want.v.null) || (!want.v.null && !holds(want.k, got)) ||
        (!want.v.null && !same(want.k, want.v, val_of(want.k, got))))
        return "expected " + want.print() + ", got " + show();
    return {};
}
}
