// Value model shared by harnesses: random field types, values, records, and their documented order.
#pragma once
#include "vh.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <gmpxx.h>
#include <boost/dynamic_bitset.hpp>
#include <takatori/datetime/date.h>
#include <takatori/datetime/time_of_day.h>
#include <takatori/datetime/time_point.h>
#include <takatori/decimal/triple.h>
#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/data/any.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/memory/paged_memory_resource.h>
#include <jogasaki/meta/field_type.h>
#include <jogasaki/meta/field_type_kind.h>
#include <jogasaki/meta/field_type_traits.h>
#include <jogasaki/meta/record_meta.h>

namespace rec {
namespace jm = jogasaki::meta;
using kind = jm::field_type_kind;
using triple = takatori::decimal::triple;
using takatori::datetime::date;
using takatori::datetime::time_of_day;
using takatori::datetime::time_point;
using jogasaki::runtime_t;
using jogasaki::data::any;

// every allocation its own heap block, so that sanitizers see each overrun
class heap_resource : public jogasaki::memory::paged_memory_resource {
public:
    ~heap_resource() override { for (auto* p : blocks_) std::free(p); }
    void end_current_page() override {}
    std::size_t bytes{}, calls{};
    void clear() { for (auto* p : blocks_) std::free(p); blocks_.clear(); }
protected:
    void* do_allocate(std::size_t n, std::size_t a) override {
        bytes += n; ++calls;
        void* p = a <= 16 ? std::malloc(n) : std::aligned_alloc(a, (n + a - 1) / a * a);
        blocks_.push_back(p);
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
private:
    std::vector<void*> blocks_{};
};

struct fdesc {
    kind k{kind::int4};
    bool nullable{true};
    bool varying{true};
    std::optional<std::size_t> len{};
    std::optional<std::size_t> p{}, s{};
    std::string str() const {
        std::ostringstream o;
        o << jm::to_string_view(k) << (nullable ? "?" : "");
        if (k == kind::character || k == kind::octet) { o << (varying ? "var(" : "fix("); if (len) o << *len; else o << "*"; o << ")"; }
        if (k == kind::decimal) { o << "("; if (p) o << *p; else o << "*"; o << ","; if (s) o << *s; else o << "*"; o << ")"; }
        return o.str();
    }
};

inline std::vector<kind> const& all_kinds() {
    static std::vector<kind> v{kind::boolean, kind::int1, kind::int2, kind::int4, kind::int8, kind::float4, kind::float8,
        kind::decimal, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point, kind::blob, kind::clob};
    return v;
}

inline jm::field_type make_type(fdesc const& d) {
    using jm::field_type;
    using jm::field_enum_tag;
    switch (d.k) {
        case kind::boolean: return field_type{field_enum_tag<kind::boolean>};
        case kind::int1: return field_type{field_enum_tag<kind::int1>};
        case kind::int2: return field_type{field_enum_tag<kind::int2>};
        case kind::int4: return field_type{field_enum_tag<kind::int4>};
        case kind::int8: return field_type{field_enum_tag<kind::int8>};
        case kind::float4: return field_type{field_enum_tag<kind::float4>};
        case kind::float8: return field_type{field_enum_tag<kind::float8>};
        case kind::decimal: return field_type{std::make_shared<jm::decimal_field_option>(d.p, d.s)};
        case kind::character: return field_type{std::make_shared<jm::character_field_option>(d.varying, d.len)};
        case kind::octet: return field_type{std::make_shared<jm::octet_field_option>(d.varying, d.len)};
        case kind::date: return field_type{field_enum_tag<kind::date>};
        case kind::time_of_day: return field_type{std::make_shared<jm::time_of_day_field_option>()};
        case kind::time_point: return field_type{std::make_shared<jm::time_point_field_option>()};
        case kind::blob: return field_type{field_enum_tag<kind::blob>};
        case kind::clob: return field_type{field_enum_tag<kind::clob>};
        default: std::abort();
    }
}

inline std::shared_ptr<jm::record_meta> make_meta(std::vector<fdesc> const& f) {
    std::vector<jm::field_type> t;
    boost::dynamic_bitset<std::uint64_t> n(f.size());
    for (std::size_t i = 0; i < f.size(); ++i) { t.push_back(make_type(f[i])); n[i] = f[i].nullable; }
    return std::make_shared<jm::record_meta>(std::move(t), std::move(n));
}

struct val {
    bool null{true};
    std::int64_t i{};       // integers, days, nanos of day, seconds, lob id
    std::int64_t j{};       // sub second nanos
    double d{};
    std::string s{};
    triple t{};
    std::string str(fdesc const& f) const {
        if (null) return "null";
        std::ostringstream o;
        switch (f.k) {
            case kind::float4: case kind::float8: o.precision(17); o << d; break;
            case kind::decimal: o << t; break;
            case kind::character: case kind::octet: o << '"' << vh::esc(s, 60) << '"'; break;
            case kind::time_point: o << i << "s+" << j; break;
            default: o << i;
        }
        return o.str();
    }
};

inline mpz_class coeff(triple const& t) {
    mpz_class c = static_cast<unsigned long>(t.coefficient_high());
    c <<= 64;
    c += static_cast<unsigned long>(t.coefficient_low());
    return t.sign() < 0 ? mpz_class(-c) : c;
}
inline triple make_triple(mpz_class v, std::int32_t exp) {
    bool neg = v < 0;
    if (neg) v = -v;
    mpz_class hi = v >> 64, lo = v - (hi << 64);
    return triple{neg ? -1 : 1, hi.get_ui(), lo.get_ui(), exp};
}
inline mpz_class p10(unsigned long n) { mpz_class r; mpz_ui_pow_ui(r.get_mpz_t(), 10, n); return r; }
inline mpz_class rand_mpz(vh::rng& r, unsigned long digits) {        // up to that many digits, edges included
    mpz_class top = p10(digits);
    mpz_class v;
    switch (r.below(6)) {
        case 0: v = top - 1; break;
        case 1: v = static_cast<unsigned long>(r.below(12)); break;
        case 2: v = p10(r.below(digits + 1)) - static_cast<unsigned long>(r.below(2)); break;
        case 3: { mpz_class one = 1; v = (one << r.below(130)) + static_cast<long>(r.below(3)) - 1; break; }
        default:
            for (int k = 0; k < 3; ++k) { v <<= 64; v += static_cast<unsigned long>(r.next()); }
            v %= p10(1 + r.below(digits));
    }
    if (v >= top) v %= top;
    if (v < 0) v = 0;
    if (r.coin()) v = -v;
    return v;
}
inline int dec_cmp(triple const& a, triple const& b) {
    mpz_class x = coeff(a), y = coeff(b);
    if (x == 0 || y == 0) return ::cmp(x, y) < 0 ? -1 : ::cmp(x, y) > 0 ? 1 : 0;
    if (a.exponent() > b.exponent()) x *= p10(static_cast<unsigned long>(a.exponent() - b.exponent()));
    else y *= p10(static_cast<unsigned long>(b.exponent() - a.exponent()));
    int c = ::cmp(x, y);
    return c < 0 ? -1 : c > 0 ? 1 : 0;
}

template <class T> int c3(T const& a, T const& b) { return a < b ? -1 : b < a ? 1 : 0; }
// the documented order: null first, NaN last, -0 equal to 0, texts by unsigned bytes
inline int compare(fdesc const& f, val const& a, val const& b) {
    if (a.null || b.null) return a.null && b.null ? 0 : a.null ? -1 : 1;
    switch (f.k) {
        case kind::float4: case kind::float8: {
            bool x = std::isnan(a.d), y = std::isnan(b.d);
            if (x || y) return x && y ? 0 : x ? 1 : -1;
            return c3(a.d, b.d);
        }
        case kind::decimal: return dec_cmp(a.t, b.t);
        case kind::character: case kind::octet: {
            int c = std::memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size()));
            return c != 0 ? (c < 0 ? -1 : 1) : c3(a.s.size(), b.s.size());
        }
        case kind::time_point: { int c = c3(a.i, b.i); return c != 0 ? c : c3(a.j, b.j); }
        case kind::blob: case kind::clob: return c3(static_cast<std::uint64_t>(a.i), static_cast<std::uint64_t>(b.i));
        default: return c3(a.i, b.i);
    }
}

inline constexpr std::int64_t day_ns = 86400LL * 1000000000LL;

inline fdesc rand_desc(vh::rng& r, std::vector<kind> const& kinds = all_kinds()) {
    fdesc f;
    f.k = r.pick(kinds);
    f.nullable = r.coin(60);
    if (f.k == kind::character || f.k == kind::octet) {
        f.varying = r.coin(60);
        if (!f.varying || r.coin(70)) f.len = 1 + r.below(r.coin(70) ? 8 : 60);
    }
    if (f.k == kind::decimal) { f.p = 1 + r.below(38); f.s = r.below(*f.p + 1); }
    return f;
}

template <class F> double rand_float(vh::rng& r) {
    using L = std::numeric_limits<F>;
    switch (r.below(12)) {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return L::infinity();
        case 3: return -L::infinity();
        case 4: return L::quiet_NaN();
        case 5: return -L::quiet_NaN();
        case 6: return r.coin() ? L::max() : L::lowest();
        case 7: return r.coin() ? L::denorm_min() : -L::min();
        case 8: return static_cast<double>(r.range(-5, 5));
        default: {
            F v;
            if constexpr (sizeof(F) == 4) { auto u = static_cast<std::uint32_t>(r.next()); std::memcpy(&v, &u, 4); }
            else { auto u = r.next(); std::memcpy(&v, &u, 8); }
            return std::isnan(v) ? L::quiet_NaN() : v;
        }
    }
}

inline std::string rand_text(vh::rng& r, std::size_t max) {
    std::size_t n = r.coin(20) ? max : r.coin(15) ? 0 : r.below(max + 1);
    std::string s;
    unsigned mode = static_cast<unsigned>(r.below(4));
    for (std::size_t i = 0; i < n; ++i) {
        char c = mode == 0 ? 'a' : mode == 1 ? static_cast<char>("ab \x01\xff\x7f\x80"[r.below(7)]) : mode == 2 ? static_cast<char>(1 + r.below(255)) : static_cast<char>('A' + r.below(26));
        s += c;
    }
    return s;
}

inline val rand_val(vh::rng& r, fdesc const& f, unsigned nullpct = 15) {
    val v;
    if (f.nullable && r.coin(nullpct)) return v;
    v.null = false;
    switch (f.k) {
        case kind::boolean: v.i = static_cast<std::int64_t>(r.below(2)); break;
        case kind::int1: v.i = r.edgy<std::int8_t>(); break;
        case kind::int2: v.i = r.edgy<std::int16_t>(); break;
        case kind::int4: v.i = r.edgy<std::int32_t>(); break;
        case kind::int8: v.i = r.edgy<std::int64_t>(); break;
        case kind::float4: v.d = rand_float<float>(r); break;
        case kind::float8: v.d = rand_float<double>(r); break;
        case kind::decimal: {
            auto p = f.p.value_or(38), s = f.s.value_or(r.below(10));
            mpz_class c = rand_mpz(r, p);
            auto e = -static_cast<std::int32_t>(s);
            if (r.coin(30)) while (c != 0 && c % 10 == 0 && r.coin(80)) { c /= 10; ++e; }
            v.t = make_triple(c, e);
            break;
        }
        case kind::character: v.s = rand_text(r, f.len.value_or(40)); break;
        case kind::octet: { auto m = f.len.value_or(40); v.s = r.coin() ? r.bytes(r.below(m + 1)) : rand_text(r, m); break; }
        case kind::date: v.i = r.coin() ? r.edgy<std::int64_t>() : r.range(-1000000, 1000000); break;
        case kind::time_of_day: v.i = r.coin(20) ? 0 : r.coin(20) ? day_ns - 1 : r.range(0, day_ns - 1); break;
        case kind::time_point:
            v.i = r.coin(30) ? r.range(-3, 3) : r.coin(20) ? r.edgy<std::int64_t>() : r.range(-5000000000LL, 5000000000LL);
            v.j = r.coin(25) ? 0 : r.coin(25) ? 999999999 : r.range(0, 999999999);
            break;
        default: v.i = r.edgy<std::int64_t>(); break;
    }
    return v;
}
// a value close to the other one
inline val near_val(vh::rng& r, fdesc const& f, val const& o) {
    if (o.null || r.coin(35)) return r.coin(60) ? o : rand_val(r, f);
    val v = o;
    switch (f.k) {
        case kind::character: case kind::octet: {
            auto max = f.len.value_or(40);
            unsigned m = static_cast<unsigned>(r.below(4));
            if (m == 0 && v.s.size() < max) v.s += static_cast<char>(f.k == kind::octet ? r.below(3) : r.coin() ? ' ' : 1 + r.below(255));
            else if (m == 1 && !v.s.empty()) v.s.pop_back();
            else if (!v.s.empty()) { auto& c = v.s[r.below(v.s.size())]; c = static_cast<char>(c + (r.coin() ? 1 : -1)); if (f.k == kind::character && c == 0) c = 1; }
            break;
        }
        case kind::decimal: {
            auto top = p10(f.p.value_or(38));
            auto s = static_cast<std::int32_t>(f.s.value_or(0));
            if (o.t.exponent() + s < 0 || o.t.exponent() + s > 60) return rand_val(r, f);
            mpz_class c = coeff(o.t) * p10(static_cast<unsigned long>(o.t.exponent() + s)) + (r.coin() ? 1 : -1);
            if (c < top && c > -top) v.t = make_triple(c, -s);
            break;
        }
        case kind::time_point: v.j = std::clamp<std::int64_t>(v.j + r.range(-1, 1), 0, 999999999); break;
        case kind::float4: v.d = std::isfinite(v.d) ? static_cast<double>(std::nextafter(static_cast<float>(v.d), r.coin() ? 9e30F : -9e30F)) : rand_val(r, f, 0).d; break;
        case kind::float8: v.d = std::isfinite(v.d) ? std::nextafter(v.d, r.coin() ? 9e300 : -9e300) : rand_val(r, f, 0).d; break;
        case kind::boolean: v.i ^= 1; break;
        case kind::time_of_day: v.i = std::clamp<std::int64_t>(v.i + r.range(-1, 1), 0, day_ns - 1); break;
        case kind::int1: v.i = std::clamp<std::int64_t>(v.i + r.range(-1, 1), -128, 127); break;
        case kind::int2: v.i = std::clamp<std::int64_t>(v.i + r.range(-1, 1), -32768, 32767); break;
        case kind::int4: v.i = std::clamp<std::int64_t>(v.i + r.range(-1, 1), INT32_MIN, INT32_MAX); break;
        default: v.i = static_cast<std::int64_t>(static_cast<std::uint64_t>(v.i) + static_cast<std::uint64_t>(r.range(-1, 1))); break;
    }
    return v;
}

inline jogasaki::accessor::text mk_text(std::string const& s, jogasaki::memory::paged_memory_resource* m) { return jogasaki::accessor::text{m, s}; }
inline time_point mk_tp(val const& v) { return time_point{std::chrono::duration<std::int64_t>{v.i}, std::chrono::nanoseconds{v.j}}; }

inline void put(jogasaki::accessor::record_ref r, jm::record_meta const& m, std::size_t i, fdesc const& f, val const& v, jogasaki::memory::paged_memory_resource* res) {
    if (f.nullable) r.set_null(m.nullity_offset(i), v.null);
    if (v.null) return;
    auto o = m.value_offset(i);
    switch (f.k) {
        case kind::boolean: r.set_value<runtime_t<kind::boolean>>(o, static_cast<std::int8_t>(v.i)); break;
        case kind::int1: case kind::int2: case kind::int4: r.set_value<std::int32_t>(o, static_cast<std::int32_t>(v.i)); break;
        case kind::int8: r.set_value<std::int64_t>(o, v.i); break;
        case kind::float4: r.set_value<float>(o, static_cast<float>(v.d)); break;
        case kind::float8: r.set_value<double>(o, v.d); break;
        case kind::decimal: r.set_value<triple>(o, v.t); break;
        case kind::character: r.set_value<jogasaki::accessor::text>(o, jogasaki::accessor::text{res, v.s}); break;
        case kind::octet: r.set_value<jogasaki::accessor::binary>(o, jogasaki::accessor::binary{res, v.s}); break;
        case kind::date: r.set_value<date>(o, date{v.i}); break;
        case kind::time_of_day: r.set_value<time_of_day>(o, time_of_day{std::chrono::nanoseconds{v.i}}); break;
        case kind::time_point: r.set_value<time_point>(o, mk_tp(v)); break;
        case kind::blob: r.set_value(o, jogasaki::lob::blob_reference{static_cast<std::uint64_t>(v.i), jogasaki::lob::lob_data_provider::datastore}); break;
        case kind::clob: r.set_value(o, jogasaki::lob::clob_reference{static_cast<std::uint64_t>(v.i), jogasaki::lob::lob_data_provider::datastore}); break;
        default: std::abort();
    }
}
inline val of_tp(time_point const& t) { val v; v.null = false; v.i = t.seconds_since_epoch().count(); v.j = t.subsecond().count(); return v; }
template <class S> std::string sv(S const& t) { return std::string{static_cast<std::string_view>(t)}; }
template <class R>
val get(R r, jm::record_meta const& m, std::size_t i, fdesc const& f) {
    val v;
    if (f.nullable && r.is_null(m.nullity_offset(i))) return v;
    v.null = false;
    auto o = m.value_offset(i);
    switch (f.k) {
        case kind::boolean: v.i = r.template get_value<std::int8_t>(o); break;
        case kind::int1: case kind::int2: case kind::int4: v.i = r.template get_value<std::int32_t>(o); break;
        case kind::int8: v.i = r.template get_value<std::int64_t>(o); break;
        case kind::float4: v.d = static_cast<double>(r.template get_value<float>(o)); break;
        case kind::float8: v.d = r.template get_value<double>(o); break;
        case kind::decimal: v.t = r.template get_value<triple>(o); break;
        case kind::character: { auto t = r.template get_value<jogasaki::accessor::text>(o); v.s = sv(t); break; }
        case kind::octet: { auto t = r.template get_value<jogasaki::accessor::binary>(o); v.s = sv(t); break; }
        case kind::date: v.i = r.template get_value<date>(o).days_since_epoch(); break;
        case kind::time_of_day: v.i = r.template get_value<time_of_day>(o).time_since_epoch().count(); break;
        case kind::time_point: v = of_tp(r.template get_value<time_point>(o)); break;
        case kind::blob: v.i = static_cast<std::int64_t>(r.template get_value<jogasaki::lob::blob_reference>(o).object_id()); break;
        case kind::clob: v.i = static_cast<std::int64_t>(r.template get_value<jogasaki::lob::clob_reference>(o).object_id()); break;
        default: std::abort();
    }
    return v;
}
inline any to_any(fdesc const& f, val const& v, jogasaki::memory::paged_memory_resource* res) {
    if (v.null) return {};
    switch (f.k) {
        case kind::boolean: return any{std::in_place_type<bool>, v.i != 0};
        case kind::int1: case kind::int2: case kind::int4: return any{std::in_place_type<std::int32_t>, static_cast<std::int32_t>(v.i)};
        case kind::int8: return any{std::in_place_type<std::int64_t>, v.i};
        case kind::float4: return any{std::in_place_type<float>, static_cast<float>(v.d)};
        case kind::float8: return any{std::in_place_type<double>, v.d};
        case kind::decimal: return any{std::in_place_type<triple>, v.t};
        case kind::character: return any{std::in_place_type<jogasaki::accessor::text>, jogasaki::accessor::text{res, v.s}};
        case kind::octet: return any{std::in_place_type<jogasaki::accessor::binary>, jogasaki::accessor::binary{res, v.s}};
        case kind::date: return any{std::in_place_type<date>, date{v.i}};
        case kind::time_of_day: return any{std::in_place_type<time_of_day>, time_of_day{std::chrono::nanoseconds{v.i}}};
        case kind::time_point: return any{std::in_place_type<time_point>, mk_tp(v)};
        case kind::blob: return any{std::in_place_type<jogasaki::lob::blob_reference>, jogasaki::lob::blob_reference{static_cast<std::uint64_t>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        case kind::clob: return any{std::in_place_type<jogasaki::lob::clob_reference>, jogasaki::lob::clob_reference{static_cast<std::uint64_t>(v.i), jogasaki::lob::lob_data_provider::datastore}};
        default: std::abort();
    }
}
inline val of_any(fdesc const& f, any const& a) {
    val v;
    if (a.empty()) return v;
    v.null = false;
    switch (f.k) {
        case kind::boolean: v.i = a.to<std::int8_t>(); break;
        case kind::int1: case kind::int2: case kind::int4: v.i = a.to<std::int32_t>(); break;
        case kind::int8: v.i = a.to<std::int64_t>(); break;
        case kind::float4: v.d = static_cast<double>(a.to<float>()); break;
        case kind::float8: v.d = a.to<double>(); break;
        case kind::decimal: v.t = a.to<triple>(); break;
        case kind::character: { auto t = a.to<jogasaki::accessor::text>(); v.s = sv(t); break; }
        case kind::octet: { auto t = a.to<jogasaki::accessor::binary>(); v.s = sv(t); break; }
        case kind::date: v.i = a.to<date>().days_since_epoch(); break;
        case kind::time_of_day: v.i = a.to<time_of_day>().time_since_epoch().count(); break;
        case kind::time_point: v = of_tp(a.to<time_point>()); break;
        case kind::blob: v.i = static_cast<std::int64_t>(a.to<jogasaki::lob::blob_reference>().object_id()); break;
        case kind::clob: v.i = static_cast<std::int64_t>(a.to<jogasaki::lob::clob_reference>().object_id()); break;
        default: std::abort();
    }
    return v;
}

// a record in a heap block of exactly its size
struct record {
    std::unique_ptr<char[]> buf;
    jogasaki::accessor::record_ref ref;
    record() = default;
    explicit record(jm::record_meta const& m, char fill = 0x5a) :
        buf(new char[std::max<std::size_t>(m.record_size(), 1)]), ref(buf.get(), m.record_size()) { std::memset(buf.get(), fill, m.record_size()); }
};
}
