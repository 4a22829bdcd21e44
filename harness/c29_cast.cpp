// Conversions between SQL types against an independent model of the documented rules.
#include "exprtree.h"
#include "globals2.h"
#include <takatori/type/blob.h>
#include <takatori/type/clob.h>
#include <jogasaki/executor/expr/details/cast_evaluation.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <cfloat>
#include <glog/logging.h>
using namespace jogasaki;
using rec::kind;
using rec::val;
using sv::V;
using sv::D;
using rec::triple;
namespace ex = jogasaki::executor::expr;
namespace tt = takatori::type;
using ex::error_kind;
using pol = ex::loss_precision_policy;
static memory::page_pool pool;

struct ty {
    kind k{kind::int4};
    bool varying = true;
    std::optional<std::size_t> len{}, p{}, s{};
    bool tz = false;
    std::shared_ptr<tt::data const> make() const {
        switch (k) {
            case kind::int1: return std::make_shared<tt::int1>();
            case kind::int2: return std::make_shared<tt::int2>();
            case kind::decimal: return std::make_shared<tt::decimal>(p, s);
            case kind::character: return std::make_shared<tt::character>(varying, len);
            case kind::octet: return std::make_shared<tt::octet>(varying, len);
            case kind::time_point: return std::make_shared<tt::time_point>(tz);
            case kind::blob: return std::make_shared<tt::blob>();
            case kind::clob: return std::make_shared<tt::clob>();
            default: return xt::type_of(k);
        }
    }
    std::string print() const {
        std::ostringstream o;
        o << meta::to_string_view(k);
        auto f = [&](auto const& x) { if (x) o << *x; else o << "*"; };
        if (k == kind::decimal) { o << "("; f(p); o << ","; f(s); o << ")"; }
        if (k == kind::character || k == kind::octet) { if (varying) o << " varying"; o << "("; f(len); o << ")"; }
        if (tz) o << " with time zone";
        return o.str();
    }
};
struct cfg { bool boolean = false, small = false, lob = false; int zone = 0; };
// what a conversion comes to: an error, or a value possibly with loss
struct out {
    std::optional<error_kind> err{};
    V v{};
    bool loss = false, too_long = false;
    bool open = false;
    std::optional<V> alt{};     // also acceptable
    static out error(error_kind e) { out o; o.err = e; return o; }
    static out value(V v, bool loss = false) { out o; o.v = std::move(v); o.loss = loss; return o; }
};
static mpz_class strip(mpz_class c, std::int64_t& e) {
    if (c == 0) { e = 0; return c; }
    while (c % 10 == 0) { c /= 10; ++e; }
    return c;
}
static out ps(D d, ty const& t) {
    if (t.p && !t.s) return out::error(error_kind::unsupported);
    d.c = strip(d.c, d.e);
    if (!t.p && !t.s) {
        out o = out::value(V::dec(rec::make_triple(d.c, static_cast<std::int32_t>(d.e))));
        if (d.e > 24576 - 37) o.alt = V::dec(rec::make_triple(sv::scale10(d.c, d.e - (24576 - 37)), 24576 - 37));    // the same number
        return o;
    }
    long p = static_cast<long>(t.p.value_or(38)), s = static_cast<long>(*t.s);
    if (d.c != 0 && sv::digits(d.c) + d.e > p - s) {
        mpz_class m = rec::p10(static_cast<unsigned long>(p)) - 1;
        if (d.c < 0) m = -m;
        return out::value(V::dec(rec::make_triple(m, static_cast<std::int32_t>(-s))), true);
    }
    bool loss = false;
    if (d.e < -s) {
        if (-s - d.e > 200) { loss = d.c != 0; d.c = 0; }
        else { mpz_class q = rec::p10(static_cast<unsigned long>(-s - d.e)); loss = d.c % q != 0; d.c /= q; }
    } else if (d.c != 0) d.c = sv::scale10(d.c, d.e + s);
    return out::value(V::dec(rec::make_triple(d.c, static_cast<std::int32_t>(-s))), loss);
}
static mpz_class lo_of(kind k) { return k == kind::int1 ? mpz_class(-128) : k == kind::int2 ? mpz_class(-32768) : k == kind::int4 ? mpz_class(static_cast<long>(INT32_MIN)) : mpz_class(static_cast<long>(INT64_MIN)); }
static mpz_class hi_of(kind k) { return -lo_of(k) - 1; }
static out to_int(mpz_class x, bool fraction, kind k) {
    if (x > hi_of(k)) return out::value(V::i(k, hi_of(k).get_si()), true);
    if (x < lo_of(k)) return out::value(V::i(k, lo_of(k).get_si()), true);
    return out::value(V::i(k, x.get_si()), fraction);
}
static out d_int(D d, kind k) {
    d.c = strip(d.c, d.e);
    if (d.e >= 0) {
        if (d.c != 0 && sv::digits(d.c) + d.e > 40) return out::value(V::i(k, (d.c > 0 ? hi_of(k) : lo_of(k)).get_si()), true);
        return to_int(sv::scale10(d.c, d.e), false, k);
    }
    if (-d.e > 200) return to_int(0, d.c != 0, k);
    mpz_class q = rec::p10(static_cast<unsigned long>(-d.e));
    return to_int(d.c / q, d.c % q != 0, k);
}
template <class F> static out d_float(D const& d, bool neg, kind k) {
    using L = std::numeric_limits<F>;
    std::string s = mpz_class(abs(d.c)).get_str() + "e" + std::to_string(d.e);
    F f = std::is_same_v<F, float> ? static_cast<F>(std::strtof(s.c_str(), nullptr)) : static_cast<F>(std::strtod(s.c_str(), nullptr));
    F sg = neg ? F(-1) : F(1);
    out o = out::value(V::d(k, std::copysign(f, sg)));
    if (d.c != 0) {
        // the values right at the ends of the range may go either way
        if (f == L::max()) o.alt = V::d(k, std::copysign(L::infinity(), sg));
        if (f == L::min()) o.alt = V::d(k, std::copysign(F(0), sg));
        if (f < L::min()) o.v = V::d(k, std::copysign(F(0), sg));
    }
    return o;
}
static out ffloat(double x, kind k) {
    if (std::isnan(x)) return out::value(V::d(k, NAN));
    if (k == kind::float8) return out::value(V::d(k, x));
    if (x > FLT_MAX) return out::value(V::d(k, INFINITY));
    if (x < -FLT_MAX) return out::value(V::d(k, -INFINITY));
    if (std::fabs(x) < FLT_MIN) return out::value(V::d(k, std::copysign(0.0, x)));
    return out::value(V::d(k, static_cast<float>(x)));
}
static std::size_t cut(std::string const& s, std::size_t n) {     // the last character boundary not after n
    std::size_t e = n;
    while (e > 0 && (static_cast<unsigned char>(s[e]) & 0xc0) == 0x80) --e;
    return e;
}
static out fit(std::string s, ty const& t, bool src_padded) {
    char pad = t.k == kind::character ? ' ' : '\0';
    auto mk = [&](std::string x) { V v = V::str(std::move(x)); v.k = t.k; return v; };
    if (!t.len) return out::value(mk(std::move(s)));
    out o;
    if (s.size() > *t.len) {
        std::size_t n = t.k == kind::character ? cut(s, *t.len) : *t.len;
        bool only_pad = true;
        for (std::size_t i = n; i < s.size(); ++i) only_pad = only_pad && s[i] == pad;
        o.loss = o.too_long = !(src_padded && only_pad);
        s.resize(n);
        o.v = mk(s);
        if (!t.varying && s.size() < *t.len) { s.resize(*t.len, pad); o.alt = mk(s); }
        return o;
    }
    if (!t.varying) s.resize(*t.len, pad);
    return out::value(mk(s));
}
static std::string trim(std::string const& s) {
    auto b = s.find_first_not_of(' ');
    if (b == std::string::npos) return {};
    return s.substr(b, s.find_last_not_of(' ') - b + 1);
}
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
// numeric text: sign digits [. digits] [E sign digits], INF, INFINITY, NaN
struct num { enum { bad, finite, inf, nan } kind = bad; bool neg = false, huge = false; D d{0, 0}; };
static num parse(std::string const& text) {
    num r;
    std::string s = lower(text);
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
    std::string rest = s.substr(i);
    if (rest == "inf" || rest == "infinity") { r.kind = num::inf; return r; }
    if (rest == "nan") { r.kind = num::nan; return r; }
    std::string dig;
    std::int64_t e = 0;
    bool dot = false;
    for (; i < s.size(); ++i) {
        if (s[i] >= '0' && s[i] <= '9') { dig += s[i]; if (dot) --e; }
        else if (s[i] == '.' && !dot) dot = true;
        else break;
    }
    if (dig.empty()) return r;
    if (i < s.size()) {
        if (s[i] != 'e') return r;
        ++i;
        bool en = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) en = s[i++] == '-';
        if (i == s.size()) return r;
        std::int64_t x = 0;
        for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return r; x = x * 10 + (s[i] - '0'); if (x > 1000000000000000) { x = 1000000000000000; r.huge = true; } }
        e += en ? -x : x;
    }
    r.kind = num::finite;
    r.d = {mpz_class(dig, 10), e};
    return r;
}
static out from_text(std::string const& raw, ty const& t, bool padded, cfg const& c, bool implicit) {
    (void)implicit;
    auto fmt = out::error(error_kind::format_error);
    std::string s = trim(raw);
    switch (t.k) {
        case kind::boolean: {
            auto l = lower(s);
            if (l.empty()) return fmt;
            if (std::string{"true"}.rfind(l, 0) == 0) return out::value(V::b(true));
            if (std::string{"false"}.rfind(l, 0) == 0) return out::value(V::b(false));
            return fmt;
        }
        case kind::character: return fit(raw, t, padded);
        case kind::octet: {
            if (s.size() % 2) return fmt;
            std::string o;
            auto h = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; };
            for (std::size_t i = 0; i < s.size(); i += 2) { if (h(s[i]) < 0 || h(s[i + 1]) < 0) return fmt; o += static_cast<char>(h(s[i]) * 16 + h(s[i + 1])); }
            return fit(o, t, padded);
        }
        case kind::int1: case kind::int2: case kind::int4: case kind::int8: case kind::decimal: case kind::float4: case kind::float8: {
            num n = parse(s);
            bool fl = t.k == kind::float4 || t.k == kind::float8;
            if (n.kind == num::bad) return fmt;
            if (n.kind == num::inf) return fl ? out::value(V::d(t.k, n.neg ? -INFINITY : INFINITY)) : fmt;
            if (n.kind == num::nan) return fl ? out::value(V::d(t.k, NAN)) : fmt;
            bool loss = false;
            if (n.d.c == 0 && n.huge) { out o = fmt; o.open = true; return o; }
            if (n.d.c == 0) n.d.e = 0;
            else {
                long dg = sv::digits(n.d.c);
                if (n.d.e + dg - 1 > 24576 || n.d.e + dg - 1 < -24575) return fmt;
                if (dg > 38) {
                    mpz_class q = rec::p10(static_cast<unsigned long>(dg - 38));
                    loss = n.d.c % q != 0;
                    n.d.c /= q;
                    n.d.e += dg - 38;
                }
            }
            if (n.neg) n.d.c = -n.d.c;
            out o = fl ? (t.k == kind::float4 ? d_float<float>(n.d, n.neg, t.k) : d_float<double>(n.d, n.neg, t.k)) : t.k == kind::decimal ? ps(n.d, t) : d_int(n.d, t.k);
            if (o.err && loss && *o.err == error_kind::unsupported) { o.open = true; }   // either refusal may come first
            o.loss = o.loss || loss;
            return o;
        }
        default: break;
    }
    (void)c;
    return out::error(error_kind::unsupported);
}
static std::string sci(D d, bool neg) {
    std::string dg = mpz_class(abs(d.c)).get_str();
    long n = static_cast<long>(dg.size()), adj = d.e + n - 1;
    std::string o = neg ? "-" : "";
    if (d.e <= 0 && adj >= -6) {
        if (d.e == 0) return o + dg;
        long point = n + d.e;
        if (point > 0) return o + dg.substr(0, static_cast<std::size_t>(point)) + "." + dg.substr(static_cast<std::size_t>(point));
        return o + "0." + std::string(static_cast<std::size_t>(-point), '0') + dg;
    }
    o += dg[0];
    if (n > 1) o += "." + dg.substr(1);
    return o + "E" + (adj < 0 ? "-" : "+") + std::to_string(std::labs(adj));
}
static std::string float_text(double x) {
    if (std::isnan(x)) return "NaN";
    if (std::isinf(x)) return x > 0 ? "Infinity" : "-Infinity";
    char b[64];
    std::snprintf(b, sizeof b, "%G", x);
    return b;
}
static bool is_fl(kind k) { return k == kind::float4 || k == kind::float8; }
static bool is_int(kind k) { return k == kind::int1 || k == kind::int2 || k == kind::int4 || k == kind::int8; }
static out expected(ty const& a, ty const& b, V const& v, pol p, cfg const& c) {
    auto un = out::error(error_kind::unsupported);
    bool boo = a.k == kind::boolean || b.k == kind::boolean;
    bool small = a.k == kind::int1 || a.k == kind::int2 || b.k == kind::int1 || b.k == kind::int2;
    bool lob = a.k == kind::blob || a.k == kind::clob || b.k == kind::blob || b.k == kind::clob;
    if ((boo && !c.boolean) || (small && !boo && !c.small) || (lob && !boo && !small && !c.lob)) return un;
    if (is_fl(a.k) && (is_int(b.k) || b.k == kind::decimal) && p == pol::implicit) return un;
    if (v.v.null) return out::value(V::null(b.k));
    switch (a.k) {
        case kind::boolean:
            if (b.k == kind::boolean) return out::value(v);
            if (b.k == kind::character) return fit(v.v.i ? "true" : "false", b, false);
            return un;
        case kind::int1: case kind::int2: case kind::int4: case kind::int8:
            if (is_int(b.k)) return to_int(static_cast<long>(v.v.i), false, b.k);
            if (b.k == kind::float4) return out::value(V::d(b.k, static_cast<float>(v.v.i)));
            if (b.k == kind::float8) return out::value(V::d(b.k, static_cast<double>(v.v.i)));
            if (b.k == kind::decimal) return ps({static_cast<long>(v.v.i), 0}, b);
            if (b.k == kind::character) return fit(std::to_string(v.v.i), b, false);
            return un;
        case kind::float4: case kind::float8: {
            double x = v.v.d;
            if (a.k == b.k) return out::value(V::d(b.k, sv::canonical(x)));
            if (is_fl(b.k)) return ffloat(x, b.k);
            if (b.k == kind::character) return fit(float_text(x), b, false);
            if (!is_int(b.k) && b.k != kind::decimal) return un;
            if (std::isnan(x)) return out::error(error_kind::arithmetic_error);
            if (is_int(b.k)) {
                if (std::isinf(x)) return out::value(V::i(b.k, (x > 0 ? hi_of(b.k) : lo_of(b.k)).get_si()), true);
                return to_int(mpz_class(std::trunc(x)), std::trunc(x) != x, b.k);
            }
            if (std::isinf(x)) {
                if (b.p && !b.s) { auto o = un; o.open = true; return o; }
                mpz_class m = rec::p10(38) - 1;
                if (!b.p && !b.s) return out::value(V::dec(rec::make_triple(x > 0 ? m : mpz_class(-m), 24576 - 37)), true);
                return ps({x > 0 ? m : mpz_class(-m), 24576 - 37}, b);
            }
            return ps(parse(float_text(x)).neg ? D{-parse(float_text(x)).d.c, parse(float_text(x)).d.e} : parse(float_text(x)).d, b);
        }
        case kind::decimal: {
            D d = sv::d_of(v.v.t);
            if (is_int(b.k)) return d_int(d, b.k);
            if (b.k == kind::float4) return d_float<float>(d, d.c < 0, b.k);
            if (b.k == kind::float8) return d_float<double>(d, d.c < 0, b.k);
            if (b.k == kind::decimal) return ps(d, b);
            if (b.k == kind::character) return fit(sci(d, d.c < 0), b, false);
            return un;
        }
        case kind::character:
            return from_text(v.v.s, b, !a.varying, c, p == pol::implicit);
        case kind::octet:
            if (b.k == kind::octet) return fit(v.v.s, b, !a.varying);
            if (b.k == kind::character) {
                std::string o;
                for (unsigned char ch : v.v.s) { char h[4]; std::snprintf(h, sizeof h, "%02x", ch); o += h; }
                return fit(o, b, !a.varying);
            }
            return un;
        default: return un;
    }
}
static char const* pname(pol p) { static char const* n[] = {"ignore", "floor", "ceil", "unknown", "warn", "error", "implicit"}; return n[static_cast<std::size_t>(p)]; }
static std::string show(std::string const& s) { std::ostringstream o; for (unsigned char ch : s) if (ch >= 0x20 && ch < 0x7f) o << ch; else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", ch); o << b; } return o.str(); }
static memory::lifo_paged_memory_resource& res() { static memory::lifo_paged_memory_resource r(&pool); return r; }
static cfg now{};
static void set(cfg const& c) {
    auto& g = *global::config_pool();
    g.support_boolean(c.boolean); g.support_smallint(c.small); g.enable_blob_cast(c.lob); g.zone_offset(c.zone);
    now = c;
}
static void judge(ty const& a, ty const& b, V const& v, pol p, out want, std::string const& key) {
    auto cp = res().get_checkpoint();
    {
        ex::evaluator_context ctx{&res()};
        ctx.set_loss_precision_policy(p);
        rec::fdesc f; f.k = a.k;
        rec::any in = rec::to_any(f, v.v, &res());
        auto got = ex::details::conduct_cast(ctx, *a.make(), *b.make(), in);
        std::string what = "CAST(" + (v.v.null ? std::string{"null"} : a.k == kind::character || a.k == kind::octet ? "'" + show(v.v.s) + "'" : v.print()) + " " + a.print() + " AS " + b.print() + ") policy " + pname(p);
        auto kind_of = [&] { return got.to<ex::error>().kind(); };
        auto tell = [&] {
            if (got.error()) { std::ostringstream o; o << "error " << got.to<ex::error>(); return o.str(); }
            if (got.empty()) return std::string{"null"};
            if (!sv::holds(b.k, got)) return std::string{"a value of another type"};
            return V::of(b.k, sv::val_of(b.k, got)).print();
        };
        if (want.open) { vh::event("left open"); }
        else {
            std::optional<error_kind> e = want.err;
            bool null = !e && want.v.v.null;
            if (!e && want.loss) {
                if (p == pol::error || p == pol::implicit) e = want.too_long ? error_kind::lost_precision_value_too_long : error_kind::lost_precision;
                else if (p == pol::floor || p == pol::ceil) e = error_kind::unsupported;
                else if (p == pol::unknown) null = true;
            }
            if (e) {
                VH_CHECK(got.error() && kind_of() == *e, key + ".refused", what << ": expected error " << *e << ", got " << tell());
                if (got.error() && *e != error_kind::unsupported) {
                    VH_CHECK(!ctx.errors().empty() && ctx.errors().back().code() == *e, key + ".diagnostics", what);
                }
                vh::event("refused");
            } else if (null) {
                VH_CHECK(got.empty(), key + ".null", what << ": expected null, got " << tell());
                vh::event("null");
            } else {
                auto d = sv::differs(want.v, got);
                if (!d.empty() && want.alt && sv::differs(*want.alt, got).empty()) d.clear();
                VH_CHECK(d.empty(), key + ".value", what << ": " << d);
                bool warned = false;
                for (auto& r : ctx.errors()) warned = warned || r.code() == (want.too_long ? error_kind::lost_precision_value_too_long : error_kind::lost_precision);
                VH_CHECK(warned == (want.loss && p == pol::warn), key + ".warning", what << (warned ? ": warned without loss" : ": no warning of the loss"));
                vh::event(want.loss ? "converted with loss" : "converted exactly");
                vh::nontrivial(vh::hash(what));
            }
            if (!want.err) VH_CHECK(ctx.lost_precision() == want.loss, key + ".lost", what << ": loss of precision " << (want.loss ? "not noted" : "noted without loss"));
        }
        VH_CHECK(ctx.get_loss_precision_policy() == p, key + ".policy", what);
    }
    res().deallocate_after(cp);
}
static void one(ty const& a, ty const& b, V const& v, pol p) { judge(a, b, v, p, expected(a, b, v, p, now), std::string{meta::to_string_view(a.k)}); }

static std::string digits(vh::rng& r, std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += r.coin(30) ? '0' : r.coin(30) ? '9' : static_cast<char>('0' + r.below(10)); return s; }
static std::string num_text(vh::rng& r) {
    std::string s;
    static std::vector<std::string> const sp{"NaN", "nan", "-NaN", "+nAn", "inf", "INF", "-inf", "Infinity", "-INFINITY", "+infinity", "sNaN", "NaN1", "infinit", "infinity1", "", "-", "+", ".", "E5", "1E", "1E+", "--1", "+-1", "1..2", "0x10", "1,0", "1e1.5", "-0", "0", "-0.0", "0E99999", "-0E-99999", "1_0", "e", ".e1", "NULL", "true"};
    if (r.coin(12)) s = r.pick(sp);
    else if (r.coin(30)) {
        // near the limits of the targets
        static std::vector<std::string> const lim{"127", "128", "-128", "-129", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "3.4028234663852886E+38", "3.4028236E38", "1.17549435E-38", "1.1754942E-38", "1.7976931348623157E308", "1.7976931348623159E308", "2.2250738585072014E-308", "2.225073858507201E-308", "99999999999999999999999999999999999999", "100000000000000000000000000000000000000", "9.9999999999999999999999999999999999999E24576", "1E24576", "1E24577", "1E-24575", "1E-24576", "9.99E-24576", "1.0000000000000000000000000000000000001E-24575"};
        s = r.pick(lim);
        if (r.coin(40) && s.find('E') == std::string::npos) s += "." + digits(r, 1 + r.below(5));
        if (r.coin(15)) { if (s[0] == '-') s = s.substr(1); else s = "-" + s; }
    } else {
        if (r.coin(40)) s += r.coin(70) ? "-" : "+";
        if (r.coin(15)) s += std::string(r.below(4), '0');
        auto n = r.coin(15) ? 30 + r.below(30) : r.below(12);
        s += digits(r, n);
        if (r.coin(45)) s += "." + digits(r, r.coin(15) ? 30 + r.below(30) : r.below(8));
        if (r.coin(40)) {
            s += r.coin() ? "E" : "e";
            if (r.coin(60)) s += r.coin(70) ? "-" : "+";
            s += r.coin(20) ? std::to_string(24500 + r.below(180)) : r.coin(10) ? std::to_string(r.below(1000000000)) : std::to_string(r.below(r.coin() ? 12 : 330));
        }
        if (r.coin(4) && !s.empty()) s.insert(r.below(s.size() + 1), 1, r.pick(std::string{" x-+.eE\t"}));
    }
    if (r.coin(25)) s = std::string(r.below(3), ' ') + s + std::string(r.below(4), ' ');
    return s;
}
static std::string text(vh::rng& r) {
    if (r.coin(30)) {     // hexadecimal
        std::string s;
        auto n = 2 * r.below(8) + r.coin(10);
        for (std::size_t i = 0; i < n; ++i) s += r.coin(20) ? '0' : r.pick(std::string{"0123456789abcdefABCDEF"});
        if (r.coin(8) && !s.empty()) s[r.below(s.size())] = r.pick(std::string{"gG/:@`-\x80"});
        if (r.coin(20)) s = " " + s + "  ";
        return s;
    }
    if (r.coin(15)) {
        static std::vector<std::string> const b{"true", "TRUE", "t", "T", "tr", "fal", "FALSE", "f", "falsey", "truee", "", "  ", "tru e", "yes", "1", " true ", "F  "};
        return r.pick(b);
    }
    static std::vector<std::string> const u{"a", "b", " ", "\xc3\xa9", "\xe3\x81\x82", "\xe3\x81\x84", "\xf0\x9f\xa7\xa1", std::string(1, '\0'), "z"};
    std::string s;
    for (std::size_t i = 0, n = r.below(10); i < n; ++i) s += r.pick(u);
    if (r.coin(30)) s += std::string(r.below(6), r.coin() ? ' ' : '\0');
    return s;
}
static ty rand_type(vh::rng& r, std::vector<kind> const& ks) {
    ty t;
    t.k = r.pick(ks);
    if (t.k == kind::decimal && !r.coin(25)) {
        t.p = 1 + r.below(38);
        if (r.coin(40)) t.p = r.pick(std::vector<std::size_t>{1, 2, 37, 38});
        t.s = r.below(*t.p + 1);
        if (r.coin(40)) t.s = r.pick(std::vector<std::size_t>{0, *t.p, *t.p / 2});
        if (r.coin(4)) t.s.reset();
        else if (r.coin(10)) t.p.reset();
    }
    if (t.k == kind::character || t.k == kind::octet) {
        t.varying = r.coin(60);
        if (!t.varying || r.coin(75)) t.len = 1 + r.below(r.coin(15) ? 60 : 12);
    }
    if (t.k == kind::time_point) t.tz = r.coin();
    return t;
}
static V rand_src(vh::rng& r, ty const& t) {
    if (r.coin(3)) return V::null(t.k);
    switch (t.k) {
        case kind::boolean: return V::b(r.coin());
        case kind::int1: return V::i(t.k, r.edgy<std::int8_t>());
        case kind::int2: return V::i(t.k, r.edgy<std::int16_t>());
        case kind::int4: return V::i(t.k, r.coin(40) ? r.pick(std::vector<std::int64_t>{126, 127, 128, 129, -127, -128, -129, 32766, 32767, 32768, -32767, -32768, -32769, 16777215, 16777217, -16777217}) : r.edgy<std::int32_t>());
        case kind::int8: return V::i(t.k, r.coin(40) ? r.pick(std::vector<std::int64_t>{127, 128, -128, -129, 32767, 32768, -32768, -32769, 2147483647, 2147483648, -2147483648LL, -2147483649LL, 9007199254740993LL, -9007199254740993LL, INT64_MAX - 511, INT64_MAX - 512, 99999, 100000}) : r.edgy<std::int64_t>());
        case kind::float4: case kind::float8: {
            double x = 0;
            bool f4 = t.k == kind::float4;
            switch (r.below(9)) {
                case 0: x = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 0.0, -0.0, -NAN}); break;
                case 1: {
                    x = r.pick(std::vector<double>{127, -128, 32767, -32768, 2147483647, 2147483648.0, -2147483648.0, 9223372036854775808.0, -9223372036854775808.0, FLT_MAX, FLT_MIN, 1e10, 1e38, 1});
                    if (f4) { float f = static_cast<float>(x); for (auto n = r.below(4); n > 0; --n) f = std::nextafter(f, r.coin() ? INFINITY : -INFINITY); x = f; }
                    else for (auto n = r.below(4); n > 0; --n) x = std::nextafter(x, r.coin() ? INFINITY : -INFINITY);
                    if (r.coin(25)) x = -x;
                    break;
                }
                case 2: x = static_cast<double>(r.range(-40000, 40000)) + r.pick(std::vector<double>{0, 0.5, 0.25, 0.999}); break;
                case 3: x = static_cast<double>(r.range(-999999, 999999)) / 1000; break;
                case 4: x = std::ldexp(static_cast<double>(r.range(-1000000, 1000000)), static_cast<int>(r.range(-60, 60))); break;
                default:
                    if (f4) { std::uint32_t b = static_cast<std::uint32_t>(r.next()); float f; std::memcpy(&f, &b, 4); x = f; }
                    else { std::uint64_t b = r.next(); std::memcpy(&x, &b, 8); }
            }
            return V::d(t.k, f4 ? static_cast<float>(x) : x);
        }
        case kind::decimal: {
            mpz_class c = rec::rand_mpz(r, 38);
            if (r.coin(30)) {
                static std::vector<std::string> const lim{"127", "128", "-129", "32768", "-32769", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "999", "1000"};
                c = mpz_class(r.pick(lim)) + r.range(-1, 1);
            }
            std::int64_t e = r.coin(60) ? r.range(-40, 10) : r.coin(70) ? r.range(-330, 330) : r.range(-24612, 24576);
            if (r.coin(20) && c != 0) { auto up = r.below(static_cast<std::uint64_t>(39 - sv::digits(c))); if (sv::digits(c) + static_cast<long>(up) <= 38) { c = sv::scale10(c, static_cast<std::int64_t>(up)); e -= static_cast<std::int64_t>(up); } }
            if (c == 0) e = r.range(-40, 40);
            else { long adj = e + sv::digits(c) - 1; if (adj > 24576) e -= adj - 24576; if (adj < -24575) e += -24575 - adj; if (e < -24612) e = -24612; }
            return V::dec(rec::make_triple(c, static_cast<std::int32_t>(e)));
        }
        case kind::character: { V v = V::str(r.coin(60) ? num_text(r) : text(r)); return v; }
        case kind::octet: { V v = V::str(r.coin(50) ? text(r) : r.bytes(r.below(16)) + std::string(r.below(4), '\0')); v.k = kind::octet; return v; }
        default: { rec::fdesc f; f.k = t.k; return V::of(t.k, rec::rand_val(r, f, 0)); }
    }
}
static pol rand_policy(vh::rng& r) { return static_cast<pol>(r.below(7)); }
static void random(vh::rng& r) {
    static std::vector<kind> const src{kind::boolean, kind::int1, kind::int2, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::decimal, kind::character, kind::character, kind::character, kind::date, kind::time_of_day, kind::time_point};
    static std::vector<kind> const tgt{kind::boolean, kind::int1, kind::int2, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::decimal, kind::decimal, kind::character, kind::blob, kind::clob};
    cfg c;
    c.boolean = r.coin(85); c.small = r.coin(85);
    set(c);
    ty a = rand_type(r, src), b = rand_type(r, tgt);
    one(a, b, rand_src(r, a), rand_policy(r));
}
// text to temporal values: what is checked is that the parts and the zone end up where they belong
static void temporal(vh::rng& r) {
    cfg c;
    c.zone = r.coin() ? 0 : static_cast<int>(r.range(-840, 840));
    set(c);
    ty a; a.k = kind::character;
    int y = static_cast<int>(r.range(r.coin() ? 1900 : 1, r.coin() ? 2100 : 9998)), mo = static_cast<int>(r.range(1, 12)), d = static_cast<int>(r.range(1, 28)), h = static_cast<int>(r.range(0, 23)), mi = static_cast<int>(r.range(0, 59)), s = static_cast<int>(r.range(0, 59));
    if (r.coin(20)) { mo = r.coin() ? 12 : 1; d = mo == 12 ? 31 : 1; }
    int nd = static_cast<int>(r.below(10));
    std::int64_t frac = nd == 0 ? 0 : static_cast<std::int64_t>(r.below(1000000000));
    char buf[64];
    std::snprintf(buf, sizeof buf, "%04d-%02d-%02d", y, mo, d);
    std::string ds = buf;
    std::snprintf(buf, sizeof buf, "%02d:%02d:%02d", h, mi, s);
    std::string tsx = buf;
    if (nd) { std::snprintf(buf, sizeof buf, "%09lld", static_cast<long long>(frac)); std::string f = std::string{buf}.substr(0, static_cast<std::size_t>(nd)); tsx += "." + f; frac = std::stoll(f + std::string(9 - f.size(), '0')); }
    // days since 1970-01-01 (proleptic Gregorian)
    auto days = [](int yy, int mm, int dd) { yy -= mm <= 2; int era = yy / 400; int yoe = yy - era * 400; int doy = (153 * (mm + (mm > 2 ? -3 : 9)) + 2) / 5 + dd - 1; int doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return static_cast<std::int64_t>(era) * 146097 + doe - 719468; };
    std::int64_t day = days(y, mo, d), sec = h * 3600 + mi * 60 + s;
    auto pad = [&](std::string t) { return r.coin(30) ? std::string(r.below(3), ' ') + t + std::string(r.below(3), ' ') : t; };
    auto fmt = out::error(error_kind::format_error);
    pol p = rand_policy(r);
    ty b;
    switch (r.below(4)) {
        case 0: { b.k = kind::date; val v; v.null = false; v.i = day; judge(a, b, V::str(pad(ds)), p, out::value(V::of(b.k, v)), "date"); break; }
        case 1: { b.k = kind::time_of_day; val v; v.null = false; v.i = sec * 1000000000LL + frac; judge(a, b, V::str(pad(tsx)), p, out::value(V::of(b.k, v)), "time_of_day"); break; }
        case 2: {
            b.k = kind::time_point; b.tz = r.coin(60);
            std::string t = ds + (r.coin() ? " " : "T") + tsx;
            std::int64_t shift = 0;
            bool off = false;
            if (r.coin(60)) {
                off = true;
                if (r.coin(20)) t += "Z";
                else { int oh = static_cast<int>(r.below(15)), om = static_cast<int>(r.below(60)); bool plus = r.coin(); std::snprintf(buf, sizeof buf, "%c%02d:%02d", plus ? '+' : '-', oh, om); t += buf; shift = (plus ? -1 : 1) * (oh * 60 + om) * 60; }
            } else if (b.tz) shift = -static_cast<std::int64_t>(c.zone) * 60;
            val v; v.null = false; v.i = day * 86400 + sec + shift; v.j = frac;
            judge(a, b, V::str(pad(t)), p, off && !b.tz ? fmt : out::value(V::of(b.k, v)), "time_point");
            break;
        }
        default: {
            static std::vector<std::string> const bad{"", " ", "x", "2000-01", "2000-13-01", "2000-02-30", "2000-01-01x", "24:00:00", "12:60:00", "12", "12:00:00.", "2000-01-01 25:00:00", "--", "2000/01/01"};
            b.k = r.pick(std::vector<kind>{kind::date, kind::time_of_day, kind::time_point});
            judge(a, b, V::str(r.pick(bad)), p, fmt, "malformed");
        }
    }
}
// every pair of types, for null and for a value
static void pairs() {
    vh::rng r{vh::seed() + 77};
    std::vector<kind> ks{kind::boolean, kind::int1, kind::int2, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point, kind::blob, kind::clob};
    for (int m = 0; m < 8; ++m) {
        cfg c; c.boolean = m & 1; c.small = m & 2; c.lob = m & 4;
        set(c);
        for (auto x : ks) for (auto y : ks) for (int p = 0; p < 7; ++p) {
            ty a = rand_type(r, {x}), b = rand_type(r, {y});
            if (b.k == kind::decimal && b.p && !b.s) b.s = 0;
            one(a, b, V::null(x), static_cast<pol>(p));
            bool lob = x == kind::blob || x == kind::clob || y == kind::blob || y == kind::clob;
            bool tmp = y == kind::date || y == kind::time_of_day || y == kind::time_point;
            if (lob && c.lob) continue;
            if (x == kind::blob || x == kind::clob) continue;
            if (x == kind::character && tmp) continue;
            for (int n = 0; n < 3; ++n) one(a, b, rand_src(r, a), static_cast<pol>(p));
        }
    }
}
static void body() {
    ex::details::ensure_decimal_context();
    vh::guarded("pairs", [] { pairs(); });
    vh::rng r{vh::seed()};
    for (std::uint64_t i = 0, n = vh::scale(600000, 20000000); i < n; ++i) vh::guarded("random", [&] { random(r); });
    for (std::uint64_t i = 0, n = vh::scale(40000, 1000000); i < n; ++i) vh::guarded("temporal", [&] { temporal(r); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c29_cast", "a conversion is not trivial when it yields a value", body);
}
