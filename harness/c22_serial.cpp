// Value serialization: exact bytes against an independent encoder, round trip, short rooms,
// truncated and foreign input.
#include "vh.h"
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/serializer/value_output.h>
#include <jogasaki/serializer/value_writer.h>
using namespace vh;
using namespace jogasaki::serializer;
namespace dt = takatori::datetime;
using takatori::decimal::triple;
using i128 = __int128;
namespace {
using u8 = unsigned char;
using E = entry_type;
struct val {
    E t{};
    std::int64_t i{};
    float f4{};
    double f8{};
    triple d{};
    std::string s{};
    std::size_t bits{};
    std::int32_t off{}, y{}, mo{}, dd{};
    std::uint64_t a{}, b{}, c{};
    int form{};
};
// ---- the format, written from the documented constants
void vu(std::string& o, std::uint64_t v) {
    for (int k = 0; k < 8; ++k) {
        u8 g = v & 0x7f;
        v >>= 7;
        if (v == 0) { o += static_cast<char>(g); return; }
        o += static_cast<char>(g | 0x80);
    }
    o += static_cast<char>(v);
}
std::uint64_t zz(std::int64_t v) { return v < 0 ? (static_cast<std::uint64_t>(-(v + 1)) << 1) | 1 : static_cast<std::uint64_t>(v) << 1; }
void vs(std::string& o, std::int64_t v) { vu(o, zz(v)); }
void h(std::string& o, unsigned c) { o += static_cast<char>(c); }
template <class T> void be(std::string& o, T v) { for (int k = sizeof(T) - 1; k >= 0; --k) o += static_cast<char>(v >> (8 * k) & 0xff); }
void enc_int(std::string& o, std::int64_t v) {
    if (v >= 0 && v <= 63) h(o, static_cast<unsigned>(v));
    else if (v >= -16 && v < 0) h(o, static_cast<unsigned>(0xc0 + v + 16));
    else { h(o, 0xe9); vs(o, v); }
}
// coefficient as minimal two's complement big-endian octets, any width
std::string coef(int sign, std::uint64_t hi, std::uint64_t lo) {
    u8 b[17] = {};
    for (int k = 0; k < 8; ++k) { b[16 - k] = static_cast<u8>(lo >> (8 * k)); b[8 - k] = static_cast<u8>(hi >> (8 * k)); }
    if (sign < 0) {
        int carry = 1;
        for (int k = 16; k >= 0; --k) { int x = (~b[k] & 0xff) + carry; b[k] = static_cast<u8>(x); carry = x >> 8; }
    }
    std::string s(reinterpret_cast<char*>(b), 17);
    while (s.size() > 1 && ((u8(s[0]) == 0 && u8(s[1]) < 0x80) || (u8(s[0]) == 0xff && u8(s[1]) >= 0x80))) s.erase(0, 1);
    return s;
}
bool small(triple const& d) {
    return d.coefficient_high() == 0 && (d.coefficient_low() < (1ULL << 63) || (d.coefficient_low() == (1ULL << 63) && d.sign() < 0));
}
std::int64_t sc(triple const& d) { return static_cast<std::int64_t>(d.sign() < 0 ? ~d.coefficient_low() + 1 : d.coefficient_low()); }
std::string enc(val const& v) {
    std::string o;
    switch (v.t) {
        case E::end_of_contents: h(o, 0xfe); break;
        case E::null: h(o, 0xe8); break;
        case E::int_: enc_int(o, v.i); break;
        case E::float4: { std::uint32_t b; std::memcpy(&b, &v.f4, 4); h(o, 0xea); be(o, b); break; }
        case E::float8: { std::uint64_t b; std::memcpy(&b, &v.f8, 8); h(o, 0xeb); be(o, b); break; }
        case E::decimal:
            if (small(v.d)) {
                if (v.d.exponent() == 0) enc_int(o, sc(v.d));
                else { h(o, 0xec); vs(o, v.d.exponent()); vs(o, sc(v.d)); }
            } else {
                h(o, 0xed); vs(o, v.d.exponent());
                auto c = coef(v.d.sign(), v.d.coefficient_high(), v.d.coefficient_low());
                vu(o, c.size()); o += c;
            }
            break;
        case E::character: if (v.s.size() >= 1 && v.s.size() <= 64) h(o, 0x40 + static_cast<unsigned>(v.s.size()) - 1); else { h(o, 0xf0); vu(o, v.s.size()); } o += v.s; break;
        case E::octet: if (v.s.size() >= 1 && v.s.size() <= 16) h(o, 0xd0 + static_cast<unsigned>(v.s.size()) - 1); else { h(o, 0xf1); vu(o, v.s.size()); } o += v.s; break;
        case E::bit: {
            if (v.bits >= 1 && v.bits <= 8) h(o, 0xe0 + static_cast<unsigned>(v.bits) - 1); else { h(o, 0xf2); vu(o, v.bits); }
            auto s = v.s.substr(0, (v.bits + 7) / 8);
            if (v.bits % 8 != 0) s.back() = static_cast<char>(s.back() & ((1 << (v.bits % 8)) - 1));
            o += s;
            break;
        }
        case E::date: h(o, 0xf3); vs(o, v.i); break;
        case E::time_of_day: h(o, 0xf4); vu(o, v.a); break;
        case E::time_of_day_with_offset: h(o, 0xee); vu(o, v.a); vs(o, v.off); break;
        case E::time_point: h(o, 0xf5); vs(o, v.i); vu(o, v.a); break;
        case E::time_point_with_offset: h(o, 0xef); vs(o, v.i); vu(o, v.a); vs(o, v.off); break;
        case E::datetime_interval: h(o, 0xf6); vs(o, v.y); vs(o, v.mo); vs(o, v.dd); vs(o, v.i); break;
        case E::array: if (v.a >= 1 && v.a <= 32) h(o, 0xa0 + static_cast<unsigned>(v.a) - 1); else { h(o, 0xf9); vu(o, v.a); } break;
        case E::row: if (v.a >= 1 && v.a <= 32) h(o, 0x80 + static_cast<unsigned>(v.a) - 1); else { h(o, 0xf8); vu(o, v.a); } break;
        case E::blob: h(o, 0xfb); be(o, v.a); be(o, v.b); be(o, v.c); break;
        case E::clob: h(o, 0xfa); be(o, v.a); be(o, v.b); be(o, v.c); break;
        default: break;
    }
    return o;
}
const E kinds[] = {E::null, E::int_, E::float4, E::float8, E::decimal, E::character, E::octet, E::bit, E::date, E::time_of_day, E::time_of_day_with_offset,
    E::time_point, E::time_point_with_offset, E::datetime_interval, E::row, E::array, E::clob, E::blob, E::end_of_contents};
std::size_t len(rng& r) {
    static const std::size_t e[] = {0, 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 300};
    return r.coin(60) ? e[r.below(12)] : r.coin(95) ? r.below(200) : 16380 + r.below(10);
}
std::int64_t num(rng& r) {
    switch (r.below(4)) {
        case 0: return r.range(-70, 70);
        case 1: { auto k = r.below(63); auto v = static_cast<std::int64_t>(1ULL << k) + r.range(-2, 2); return r.coin() ? v : -v; }
        case 2: return r.edgy<std::int64_t>();
        default: return static_cast<std::int64_t>(r.next()) >> r.below(64);
    }
}
val gen(rng& r) {
    val v;
    v.t = kinds[r.below(std::size(kinds))];
    if (r.coin(15)) v.t = E::decimal;
    v.form = static_cast<int>(r.below(2));
    v.i = num(r);
    v.off = r.coin() ? static_cast<std::int32_t>(r.range(-840, 840)) : r.edgy<std::int32_t>();
    v.y = r.edgy<std::int32_t>(); v.mo = r.edgy<std::int32_t>(); v.dd = r.edgy<std::int32_t>();
    { auto x = r.edgy<std::uint32_t>(); std::memcpy(&v.f4, &x, 4); auto y = r.edgy<std::uint64_t>(); std::memcpy(&v.f8, &y, 8); }
    switch (v.t) {
        case E::decimal: {
            std::uint64_t lo = r.coin() ? r.edgy<std::uint64_t>() : static_cast<std::uint64_t>(num(r)), hi = r.coin() ? 0 : r.coin() ? r.edgy<std::uint64_t>() : r.next() >> r.below(64);
            if (r.coin(10)) { lo = 0; hi = 1ULL << r.below(64); }
            if (r.coin(10)) { hi = 0; lo = 1ULL << 63; }
            std::int32_t e = r.coin(30) ? 0 : r.coin() ? static_cast<std::int32_t>(r.range(-40, 40)) : r.edgy<std::int32_t>();
            v.d = triple{r.coin() ? 1 : -1, hi, lo, e};
            break;
        }
        case E::character: case E::octet: v.s = r.bytes(len(r)); break;
        case E::bit: {
            v.bits = r.coin() ? r.below(3) * 8 + r.below(2) : len(r) * 8 + r.below(2);
            v.s = r.bytes((v.bits + 7) / 8 + r.below(2));
            break;
        }
        case E::date: break;
        case E::time_of_day: case E::time_of_day_with_offset: v.a = r.coin(30) ? 86399999999999ULL : r.coin() ? r.below(200) : r.below(86400000000000ULL); break;
        case E::time_point: case E::time_point_with_offset: v.a = r.coin(30) ? 999999999 : r.coin() ? r.below(200) : r.below(1000000000); break;
        case E::row: case E::array: { static const std::uint64_t e[] = {0, 1, 31, 32, 33, 127, 128, 0x7fffffff, 0x7ffffffe}; v.a = r.coin() ? e[r.below(9)] : r.below(0x80000000ULL); break; }
        case E::blob: case E::clob: v.a = r.edgy<std::uint64_t>(); v.b = r.edgy<std::uint64_t>(); v.c = r.edgy<std::uint64_t>(); break;
        default: break;
    }
    return v;
}
dt::time_of_day tod(val const& v) { return dt::time_of_day{dt::time_of_day::time_unit{v.a}}; }
dt::time_point tp(val const& v) { return dt::time_point{dt::time_point::offset_type{v.i}, dt::time_point::subsecond_unit{v.a}}; }
dt::datetime_interval iv(val const& v) { return dt::datetime_interval{{v.y, v.mo, v.dd}, dt::time_interval{dt::time_interval::time_unit{v.i}}}; }
bool put(val const& v, char*& p, char const* e) {
    switch (v.t) {
        case E::end_of_contents: return write_end_of_contents(p, e);
        case E::null: return write_null(p, e);
        case E::int_: return write_int(v.i, p, e);
        case E::float4: return write_float4(v.f4, p, e);
        case E::float8: return write_float8(v.f8, p, e);
        case E::decimal: return write_decimal(v.d, p, e);
        case E::character: return write_character(v.s, p, e);
        case E::octet: return write_octet(v.s, p, e);
        case E::bit: return v.form ? write_bit(v.s, v.bits, p, e) : write_bit(takatori::util::const_bitset_view{v.s.data(), v.bits}, p, e);
        case E::date: return write_date(dt::date{v.i}, p, e);
        case E::time_of_day: return write_time_of_day(tod(v), p, e);
        case E::time_of_day_with_offset: return write_time_of_day_with_offset(tod(v), v.off, p, e);
        case E::time_point: return write_time_point(tp(v), p, e);
        case E::time_point_with_offset: return write_time_point_with_offset(tp(v), v.off, p, e);
        case E::datetime_interval: return write_datetime_interval(iv(v), p, e);
        case E::array: return write_array_begin(v.a, p, e);
        case E::row: return write_row_begin(v.a, p, e);
        case E::blob: return write_blob(v.a, v.b, v.c, p, e);
        case E::clob: return write_clob(v.a, v.b, v.c, p, e);
        default: return false;
    }
}
// reads as `as`; returns whether the value equals v
bool get(E as, val const& v, char const*& p, char const* e) {
    switch (as) {
        case E::end_of_contents: read_end_of_contents(p, e); return true;
        case E::null: read_null(p, e); return true;
        case E::int_: return read_int(p, e) == v.i;
        case E::float4: { auto x = read_float4(p, e); return std::memcmp(&x, &v.f4, 4) == 0; }
        case E::float8: { auto x = read_float8(p, e); return std::memcmp(&x, &v.f8, 8) == 0; }
        case E::decimal: return read_decimal(p, e) == v.d;
        case E::character: { auto s = read_character(p, e); return s == v.s; }
        case E::octet: { auto s = read_octet(p, e); return s == v.s; }
        case E::bit: {
            auto b = read_bit(p, e);
            if (b.size() != v.bits) return false;
            for (std::size_t k = 0; k < v.bits && k / 8 < v.s.size(); ++k) if (((static_cast<u8>(b.block_data()[k / 8]) >> (k % 8)) & 1) != ((static_cast<u8>(v.s[k / 8]) >> (k % 8)) & 1)) return false;
            return true;
        }
        case E::date: { auto x = read_date(p, e); return x == dt::date{v.i}; }
        case E::time_of_day: { auto x = read_time_of_day(p, e); return x == tod(v); }
        case E::time_of_day_with_offset: { auto x = read_time_of_day_with_offset(p, e); return x.first == tod(v) && x.second == v.off; }
        case E::time_point: { auto x = read_time_point(p, e); return x == tp(v); }
        case E::time_point_with_offset: { auto x = read_time_point_with_offset(p, e); return x.first == tp(v) && x.second == v.off; }
        case E::datetime_interval: { auto x = read_datetime_interval(p, e); return x == iv(v); }
        case E::array: return read_array_begin(p, e) == v.a;
        case E::row: return read_row_begin(p, e) == v.a;
        case E::blob: return read_blob(p, e) == std::tuple{v.a, v.b, v.c};
        case E::clob: return read_clob(p, e) == std::tuple{v.a, v.b, v.c};
        default: return false;
    }
}
std::string nm(E t) { return std::string(to_string_view(t)); }
// heap block of exactly n bytes so that the sanitizer sees any access beyond it
struct room {
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit room(std::size_t n) : p(new char[n == 0 ? 1 : n]), n(n) { std::memset(p.get(), 0x5a, n); }
    char* b() { return p.get(); }
    char* e() { return p.get() + n; }
};
void one(rng& r) {
    auto v = gen(r);
    auto want = enc(v);
    auto n = nm(v.t);
    std::ostringstream os;
    os << n << " " << esc(want, 40);
    // exactly enough room, and some more
    for (std::size_t extra : {std::size_t{0}, static_cast<std::size_t>(r.below(20))}) {
        room m(want.size() + extra);
        auto* p = m.b();
        VH_CHECK(put(v, p, m.e()), "room.exact", os.str() << " refused although " << m.n << " bytes are left");
        VH_CHECK(std::string(m.b(), p) == want, "bytes", os.str() << " written " << esc(std::string(m.b(), p), 60));
        for (auto* q = p; q < m.e(); ++q) VH_CHECK(*q == 0x5a, "beyond", os.str());
        char const* c = m.b();
        VH_CHECK(peek_type(c, m.e()) == (v.t == E::decimal && small(v.d) && v.d.exponent() == 0 ? E::int_ : v.t), "peek", os.str());
        VH_CHECK(get(v.t, v, c, p), "roundtrip", os.str());
        VH_CHECK(c == p, "position", os.str());
    }
    // too little room: refused, position unchanged, nothing outside touched
    for (int k = 0; k < 4; ++k) {
        room m(k == 0 ? want.size() - 1 : r.below(want.size()));
        auto* p = m.b();
        bool ok = true;
        std::string ex;
        try { ok = put(v, p, m.e()); } catch (std::exception const& e) { ex = e.what(); }
        VH_CHECK(ex.empty(), "room.short", os.str() << " with " << m.n << " of " << want.size() << " bytes raised " << ex);
        VH_CHECK(!ok && p == m.b(), "room.short", os.str() << " with " << m.n << " of " << want.size() << " bytes: result " << ok);
        event("short rooms");
    }
    // truncated input: refused with underflow, position unchanged
    for (int k = 0; k < 4; ++k) {
        room m(k == 0 ? want.size() - 1 : r.below(want.size()));
        std::memcpy(m.b(), want.data(), m.n);
        char const* c = m.b();
        bool under = false;
        try { get(v.t, v, c, m.e()); } catch (value_input_exception const& e) { under = e.reason() == value_input_exception::reason_code::buffer_underflow; }
        VH_CHECK(under && c == m.b(), "truncated", os.str() << " cut to " << m.n << " of " << want.size());
        event("truncated inputs");
    }
    // read as another kind
    {
        auto as = kinds[r.below(std::size(kinds))];
        bool isint = static_cast<u8>(want[0]) < 0x40 || (static_cast<u8>(want[0]) >= 0xc0 && static_cast<u8>(want[0]) < 0xd0) || static_cast<u8>(want[0]) == 0xe9;
        if (as != v.t && !(isint && (as == E::decimal || as == E::int_))) {
            char const* c = want.data();
            bool thrown = false;
            try { get(as, v, c, want.data() + want.size()); } catch (std::runtime_error const&) { thrown = true; }
            VH_CHECK(thrown && c == want.data(), "kind", os.str() << " read as " << nm(as));
        } else if (isint && v.t == E::int_ && as == E::decimal) {
            char const* c = want.data();
            val w; w.d = triple{v.i, 0};
            VH_CHECK(get(E::decimal, w, c, want.data() + want.size()), "int.as.decimal", os.str());
        }
    }
    nontrivial(hash(want));
    event("kind." + n);
    sample(os.str());
}
struct sink {
    std::string out;
    std::vector<std::size_t> calls;
    bool write(char const* p, std::uint32_t n) { out.append(p, n); calls.push_back(n); return n % 2 == 0; }
};
void stream(rng& r) {
    sink k;
    value_writer<sink> w{k};
    std::vector<val> vs;
    std::string want;
    for (std::size_t n = 1 + r.below(20); n-- > 0;) {
        auto v = gen(r);
        auto before = k.calls.size();
        auto b = enc(v);
        bool res = false;
        switch (v.t) {
            case E::end_of_contents: res = w.write_end_of_contents(); break;
            case E::null: res = w.write_null(); break;
            case E::int_: res = w.write_int(v.i); break;
            case E::float4: res = w.write_float4(v.f4); break;
            case E::float8: res = w.write_float8(v.f8); break;
            case E::decimal: res = w.write_decimal(v.d); break;
            case E::character: res = w.write_character(v.s); break;
            case E::octet: res = w.write_octet(v.s); break;
            case E::bit: res = v.form ? w.write_bit(v.s, v.bits) : w.write_bit(takatori::util::const_bitset_view{v.s.data(), v.bits}); break;
            case E::date: res = w.write_date(dt::date{v.i}); break;
            case E::time_of_day: res = w.write_time_of_day(tod(v)); break;
            case E::time_of_day_with_offset: res = w.write_time_of_day_with_offset(tod(v), v.off); break;
            case E::time_point: res = w.write_time_point(tp(v)); break;
            case E::time_point_with_offset: res = w.write_time_point_with_offset(tp(v), v.off); break;
            case E::datetime_interval: res = w.write_datetime_interval(iv(v)); break;
            case E::array: res = w.write_array_begin(v.a); break;
            case E::row: res = w.write_row_begin(v.a); break;
            case E::blob: res = w.write_blob(v.a, v.b, v.c); break;
            case E::clob: res = w.write_clob(v.a, v.b, v.c); break;
            default: break;
        }
        VH_CHECK(k.calls.size() == before + 1 && k.calls.back() == b.size() && res == (b.size() % 2 == 0), "writer", nm(v.t) << " " << esc(b, 40));
        want += b;
        vs.push_back(std::move(v));
    }
    VH_CHECK(k.out == want, "writer.bytes", esc(k.out) << " for " << esc(want));
    room m(want.size());
    std::memcpy(m.b(), want.data(), want.size());
    char const* c = m.b();
    for (auto& v : vs) VH_CHECK(get(v.t, v, c, m.e()), "sequence", nm(v.t));
    VH_CHECK(c == m.e(), "sequence.end", "");
    event("sequences");
}
// decode model: the readers on arbitrary octets
struct bad {};
struct cur {
    std::string_view s;
    std::size_t p{};
    u8 next() { if (p >= s.size()) throw bad{}; return static_cast<u8>(s[p++]); }
    std::uint64_t u() {
        std::uint64_t v = 0;
        for (int k = 0; k < 8; ++k) {
            u8 g = next();
            if (g == 0 && k != 0) throw bad{};
            v |= static_cast<std::uint64_t>(g & 0x7f) << (7 * k);
            if (g < 0x80) return v;
        }
        u8 g = next();
        if (g == 0) throw bad{};
        return v | static_cast<std::uint64_t>(g) << 56;
    }
    std::int64_t z() { auto v = u(); return static_cast<std::int64_t>((v >> 1) ^ (0 - (v & 1))); }
    std::int32_t z32() { auto v = z(); if (v != static_cast<std::int32_t>(v)) throw bad{}; return static_cast<std::int32_t>(v); }
    std::uint64_t sz() { auto v = u(); if (v > 0x7fffffffULL) throw bad{}; return v; }
    std::string take(std::size_t n) { if (s.size() - p < n) throw bad{}; auto r = std::string(s.substr(p, n)); p += n; return r; }
    std::uint64_t f(int n) { std::uint64_t v = 0; while (n-- > 0) v = v << 8 | next(); return v; }
};
// nullopt: not decodable; skip: the model does not say
struct outcome { bool ok{}; val v{}; std::size_t used{}; bool skip{}; };
outcome dec(std::string_view s) {
    outcome o;
    cur c{s};
    try {
        auto b = c.next();
        auto& v = o.v;
        if (b < 0x40) { v.t = E::int_; v.i = b; }
        else if (b < 0x80) { v.t = E::character; v.s = c.take(b - 0x40 + 1); }
        else if (b < 0xa0) { v.t = E::row; v.a = b - 0x80 + 1; }
        else if (b < 0xc0) { v.t = E::array; v.a = b - 0xa0 + 1; }
        else if (b < 0xd0) { v.t = E::int_; v.i = static_cast<int>(b) - 0xc0 - 16; }
        else if (b < 0xe0) { v.t = E::octet; v.s = c.take(b - 0xd0 + 1); }
        else if (b < 0xe8) { v.t = E::bit; v.bits = b - 0xe0 + 1; v.s = c.take(1); }
        else switch (b) {
            case 0xe8: v.t = E::null; break;
            case 0xe9: v.t = E::int_; v.i = c.z(); break;
            case 0xea: { v.t = E::float4; auto x = static_cast<std::uint32_t>(c.f(4)); std::memcpy(&v.f4, &x, 4); break; }
            case 0xeb: { v.t = E::float8; auto x = c.f(8); std::memcpy(&v.f8, &x, 8); break; }
            case 0xec: { v.t = E::decimal; auto e = c.z32(); v.d = triple{c.z(), e}; break; }
            case 0xed: {
                v.t = E::decimal;
                auto e = c.z32();
                auto n = c.u();
                if (n == 0 || n > 17) throw bad{};
                auto q = c.take(n);
                bool neg = static_cast<u8>(q[0]) >= 0x80;
                if (neg && n < 8) { o.skip = true; break; }
                if (n == 17) {
                    if (static_cast<u8>(q[0]) != 0 && static_cast<u8>(q[0]) != 0xff) throw bad{};
                    if (neg && q.find_first_not_of('\0', 1) == std::string::npos) throw bad{};
                }
                unsigned __int128 m = neg ? ~static_cast<unsigned __int128>(0) : 0;
                for (char ch : q) m = m << 8 | static_cast<u8>(ch);
                if (neg) m = ~m + 1;
                v.d = triple{neg ? -1 : 1, static_cast<std::uint64_t>(m >> 64), static_cast<std::uint64_t>(m), e};
                break;
            }
            case 0xee: v.t = E::time_of_day_with_offset; v.a = c.u(); v.off = c.z32(); o.skip = v.a >= 86400000000000ULL; break;
            case 0xef: v.t = E::time_point_with_offset; v.i = c.z(); v.a = c.u(); v.off = c.z32(); o.skip = v.a >= 1000000000; break;
            case 0xf0: v.t = E::character; v.s = c.take(c.sz()); break;
            case 0xf1: v.t = E::octet; v.s = c.take(c.sz()); break;
            case 0xf2: v.t = E::bit; v.bits = c.sz(); v.s = c.take((v.bits + 7) / 8); break;
            case 0xf3: v.t = E::date; v.i = c.z(); break;
            case 0xf4: v.t = E::time_of_day; v.a = c.u(); o.skip = v.a >= 86400000000000ULL; break;
            case 0xf5: v.t = E::time_point; v.i = c.z(); v.a = c.u(); o.skip = v.a >= 1000000000; break;
            case 0xf6: v.t = E::datetime_interval; v.y = c.z32(); v.mo = c.z32(); v.dd = c.z32(); v.i = c.z(); break;
            case 0xf8: v.t = E::row; v.a = c.sz(); break;
            case 0xf9: v.t = E::array; v.a = c.sz(); break;
            case 0xfa: v.t = E::clob; v.a = c.f(8); v.b = c.f(8); v.c = c.f(8); break;
            case 0xfb: v.t = E::blob; v.a = c.f(8); v.b = c.f(8); v.c = c.f(8); break;
            case 0xfe: v.t = E::end_of_contents; break;
            default: throw bad{};
        }
        o.ok = true;
        o.used = c.p;
    } catch (bad const&) {
    }
    return o;
}
void foreign(rng& r) {
    std::string s;
    if (r.coin(60)) {
        s = enc(gen(r)) + r.bytes(r.below(4));
        for (auto k = r.below(3); k-- > 0;) s[r.below(s.size())] = r.coin() ? static_cast<char>(r.next()) : static_cast<char>(r.pick(std::vector<int>{0, 0x7f, 0x80, 0xff}));
        if (r.coin(30)) s.resize(r.below(s.size() + 1));
    } else {
        s = r.bytes(1 + r.below(30));
        s[0] = static_cast<char>(0xe8 + r.below(24));
        if (r.coin() && s.size() > 1) s[1] = static_cast<char>(r.below(20));
    }
    room m(s.size());
    std::memcpy(m.b(), s.data(), s.size());
    auto o = dec(s);
    auto as = o.ok ? o.v.t : kinds[r.below(std::size(kinds))];
    if (!o.ok && !s.empty()) {
        try { as = peek_type(m.b(), m.e()); } catch (value_input_exception const&) {}
    }
    char const* c = m.b();
    bool eq = false, thrown = false;
    try { eq = get(as, o.v, c, m.e()); } catch (std::exception const&) { thrown = true; }
    if (thrown) VH_CHECK(c == m.b(), "foreign.position", esc(s));
    VH_CHECK(c >= m.b() && c <= m.e(), "foreign.bounds", esc(s));
    if (o.skip) return;
    if (o.ok) {
        VH_CHECK(!thrown && eq && c == m.b() + o.used, "foreign.value", esc(s) << " as " << nm(as) << " thrown " << thrown << " equal " << eq << " used " << c - m.b());
        event("foreign accepted");
    } else {
        VH_CHECK(thrown, "foreign.accepted", esc(s) << " as " << nm(as));
        event("foreign refused");
    }
    nontrivial(hash(s, 7));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c22_serial", "encoded values of every kind in exact, larger and short rooms, truncated, read as other kinds, and damaged octets; distinct by the octets", [] {
        rng r(seed() * 61 + 22);
        for (std::size_t i = 0; i < scale(60000, 2000000); ++i) guarded("value", [&] { one(r); });
        for (std::size_t i = 0; i < scale(4000, 100000); ++i) guarded("stream", [&] { stream(r); });
        for (std::size_t i = 0; i < scale(80000, 3000000); ++i) guarded("foreign", [&] { foreign(r); });
    });
}
