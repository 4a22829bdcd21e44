// Built-in scalar functions, found by name and argument types as the compiler would, against an independent model.
#include "exprtree.h"
#include "globals2.h"
#include <cfloat>
#include <limits>
#include <takatori/datetime/date.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/executor/expr/evaluator_context.h>
#include <jogasaki/executor/function/builtin_scalar_functions.h>
#include <jogasaki/transaction_context.h>
#include <glog/logging.h>
using namespace jogasaki;
using rec::kind;
using rec::val;
using rec::triple;
using sv::V;
using sv::D;
using sv::ek;
namespace ex = jogasaki::executor::expr;
namespace fn = jogasaki::executor::function;
namespace tt = takatori::type;
using ex::error_kind;
static memory::page_pool pool;
static std::shared_ptr<yugawara::function::configurable_provider> prov = std::make_shared<yugawara::function::configurable_provider>();
static fn::scalar_function_repository repo;

static kind kind_of(tt::data const& t) {
    using k = tt::type_kind;
    switch (t.kind()) {
        case k::boolean: return kind::boolean;
        case k::int4: return kind::int4;
        case k::int8: return kind::int8;
        case k::float4: return kind::float4;
        case k::float8: return kind::float8;
        case k::decimal: return kind::decimal;
        case k::character: return kind::character;
        case k::octet: return kind::octet;
        case k::date: return kind::date;
        case k::time_of_day: return kind::time_of_day;
        case k::time_point: return kind::time_point;
        default: return kind::undefined;
    }
}
static yugawara::function::declaration const* lookup(std::string const& name, std::vector<kind> const& ps) {
    for (auto const& d : prov->list()) {
        if (d->name() != name || d->parameter_types().size() != ps.size()) continue;
        bool ok = true;
        for (std::size_t i = 0; i < ps.size(); ++i) ok = ok && kind_of(d->parameter_types()[i]) == ps[i];
        if (ok) return d.get();
    }
    return nullptr;
}
struct outcome { V want; std::string got; };
// an error of this very kind
static std::optional<error_kind> want_kind{};
struct call_result { rec::any a; std::size_t errors; bool info; };
static call_result call_raw(std::string const& name, std::vector<V> const& args, transaction_context* tx, memory::paged_memory_resource& mr, kind& ret) {
    std::vector<kind> ks;
    for (auto const& a : args) ks.push_back(a.k);
    auto* d = lookup(name, ks);
    if (d == nullptr) {
        std::string s = name;
        for (auto k : ks) { s += " "; s += meta::to_string_view(k); }
        vh::fail("undeclared", s);
    }
    auto* f = repo.find(d->definition_id());
    if (f == nullptr) vh::fail("unregistered", name);
    ret = kind_of(d->return_type());
    std::vector<rec::any> v;
    for (auto const& a : args) {
        rec::fdesc fd; fd.k = a.k;
        if (!a.v.null && a.v.s.size() > 1000000) {      // does not fit in the resource
            if (a.k == kind::octet) v.emplace_back(std::in_place_type<accessor::binary>, accessor::binary{std::string_view{a.v.s}});
            else v.emplace_back(std::in_place_type<accessor::text>, accessor::text{std::string_view{a.v.s}});
        } else v.push_back(a.v.null ? rec::any{} : rec::to_any(fd, a.v, &mr));
    }
    ex::evaluator_context c{&mr, tx};
    rec::any r = f->function_body()(c, takatori::util::sequence_view<rec::any>{v.data(), v.size()});
    for (std::size_t i = 0; i < args.size(); ++i) {
        rec::fdesc fd; fd.k = args[i].k;
        if (args[i].v.null) { if (!v[i].empty()) vh::fail("argument.changed", name); continue; }
        if (!sv::same(args[i].k, args[i].v, sv::val_of(args[i].k, v[i]))) vh::fail("argument.changed", name + " changed argument " + std::to_string(i) + " " + args[i].print());
    }
    return {r, c.errors().size(), c.get_error_info() != nullptr};
}
static std::string text_of(std::string const& name, std::vector<V> const& args) {
    std::string s = name + "(";
    for (auto const& a : args) { if (s.back() != '(') s += ", "; s += a.print(); }
    return s + ")";
}
static void judge(std::string const& name, std::vector<V> const& args, V const& want, std::optional<error_kind> ekd = {}, transaction_context* tx = nullptr) {
    memory::monotonic_paged_memory_resource mr{&pool};
    kind ret{};
    auto r = call_raw(name, args, tx, mr, ret);
    auto t = text_of(name, args);
    VH_CHECK(ret == want.k, name + ".type", t << " is declared to return " << ret << " not " << want.k);
    auto d = sv::differs(want, r.a);
    VH_CHECK(d.empty(), name, t << ": " << d);
    if (r.a.error()) {
        VH_CHECK(r.errors + (r.info ? 1 : 0) > 0, name + ".error", t << ": an error result and no recorded error");
        if (ekd) VH_CHECK(r.a.to<ex::error>().kind() == *ekd, name + ".error", t << ": expected the error " << *ekd << ", got " << r.a.to<ex::error>());
        vh::event(name + " error");
    } else if (r.a.empty()) vh::event(name + " null");
    else {
        vh::event(name + " value");
        vh::nontrivial(vh::hash(t));
    }
    if (vh::st().evals % 20000 == 1) vh::sample(t + " = " + want.print());
}
// code points as the documentation cuts them: start offsets, or nothing when the text is not UTF-8
static std::optional<std::vector<std::size_t>> points(std::string const& s) {
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        std::size_t n = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
        if (n == 0 || i + n > s.size()) return {};
        for (std::size_t j = 1; j < n; ++j) if ((static_cast<unsigned char>(s[i + j]) & 0xc0) != 0x80) return {};
        r.push_back(i);
        i += n;
    }
    return r;
}
static std::string rand_text(vh::rng& r) {
    static std::vector<std::string> const cs{"a", "b", "A", "Z", "z", "@", "[", "`", "{", " ", "0", "\t", std::string(1, '\0'), "\x7f", "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe3\x81\x82", "\xef\xbf\xbf", "\xe0\xa0\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "ab", "\xe3\x81\x83"};
    static std::vector<std::string> const bad{"\x80", "\xff", "\xe3\x81", "\xc3", "\xf0\x9f\x98", "\xc0\x80", "\xc1\xbf", "\xf5\x80\x80\x80"};
    std::string s;
    std::size_t n = r.coin(10) ? 0 : r.coin(85) ? r.below(8) : r.below(60);
    bool narrow = r.coin(40);
    for (std::size_t i = 0; i < n; ++i) s += narrow ? std::string(1, static_cast<char>('a' + r.below(2))) : r.pick(cs);
    if (r.coin(8)) { auto b = r.pick(bad); s.insert(r.below(s.size() + 1), b); }
    return s;
}
static V str(std::string s) { return V::str(std::move(s)); }
static V oct(std::string s) { val v; v.null = false; v.s = std::move(s); return V::of(kind::octet, v); }
static V i8(std::int64_t x) { return V::i(kind::int8, x); }
static bool nul(vh::rng& r) { return r.coin(4); }
static void texts(vh::rng& r) {
    std::string s = rand_text(r);
    bool n = nul(r);
    V a = n ? V::null(kind::character) : str(s);
    auto pt = points(s);
    std::string u = s, l = s;
    for (auto& c : u) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 'a' + 'A');
    for (auto& c : l) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
    switch (r.below(9)) {
        case 0: judge("octet_length", {a}, n ? V::null(kind::int8) : i8(static_cast<std::int64_t>(s.size()))); break;
        case 1: judge("octet_length", {n ? V::null(kind::octet) : oct(s)}, n ? V::null(kind::int8) : i8(static_cast<std::int64_t>(s.size()))); break;
        case 2: judge(r.coin() ? "character_length" : "char_length", {a}, n || !pt ? V::null(kind::int8) : i8(static_cast<std::int64_t>(pt->size()))); break;
        case 3: judge("upper", {a}, n ? a : str(u)); break;
        case 4: judge("lower", {a}, n ? a : str(l)); break;
        case 5: { s = std::string(r.below(4), ' ') + s + std::string(r.below(4), ' '); auto p = s.find_last_not_of(' '); judge("rtrim", {n ? a : str(s)}, n ? a : str(p == std::string::npos ? "" : s.substr(0, p + 1))); break; }
        case 6: { s = std::string(r.below(4), ' ') + s + std::string(r.below(4), ' '); auto p = s.find_first_not_of(' '); judge("ltrim", {n ? a : str(s)}, n ? a : str(p == std::string::npos ? "" : s.substr(p))); break; }
        case 7: {
            std::string q;
            if (pt && !pt->empty() && r.coin(75)) {
                std::size_t i = r.below(pt->size()), j = i + r.below(std::min<std::size_t>(4, pt->size() - i) + 1);
                q = s.substr((*pt)[i], (j < pt->size() ? (*pt)[j] : s.size()) - (*pt)[i]);
                if (r.coin(25)) q += "b";
            } else q = rand_text(r);
            bool m = nul(r);
            V b = m ? V::null(kind::character) : str(q);
            V w = V::null(kind::int8);
            if (!n && !m && pt) {
                if (!points(q)) w = V::opened(kind::int8);
                else {
                    auto p = s.find(q);
                    std::int64_t at = 0;
                    if (p != std::string::npos) { for (auto x : *pt) if (x < p) ++at; ++at; }
                    w = i8(at);
                }
            }
            if (!n && !m && !pt && q.empty()) w = V::opened(kind::int8);     // two rules meet
            judge("position", {b, a}, w);
            break;
        }
        default: {
            bool text = r.coin(60), m = nul(r), o = nul(r), len = r.coin(60);
            std::size_t size = text ? (pt ? pt->size() : s.size()) : s.size();
            auto around = [&]() -> std::int64_t {
                if (r.coin(85)) return static_cast<std::int64_t>(r.below(size + 4)) - 1;
                return r.edgy<std::int64_t>();
            };
            std::int64_t st = around(), ln = around();
            kind k = text ? kind::character : kind::octet;
            V w = V::null(k);
            if (!n && !m && !(len && o) && (!text || pt) && st >= 1 && st <= static_cast<std::int64_t>(size) && (!len || ln >= 0)) {
                auto off = [&](std::size_t i) { return !text ? i : i < size ? (*pt)[i] : s.size(); };
                std::size_t b = static_cast<std::size_t>(st) - 1, cnt = size - b;
                if (len) cnt = std::min<std::size_t>(cnt, static_cast<std::size_t>(ln));
                w.v.null = false;
                w.v.s = s.substr(off(b), off(b + cnt) - off(b));
            }
            std::vector<V> args{n ? V::null(k) : text ? str(s) : oct(s), m ? V::null(kind::int8) : i8(st)};
            if (len) args.push_back(o ? V::null(kind::int8) : i8(ln));
            judge(r.coin() ? "substring" : "substr", args, w);
        }
    }
}
static V rand_num(vh::rng& r, kind k) {
    switch (k) {
        case kind::int4: return V::i(k, r.coin(40) ? r.range(-1200, 1200) : r.coin(30) ? INT32_MAX - static_cast<std::int64_t>(r.below(100)) : r.edgy<std::int32_t>());
        case kind::int8: return V::i(k, r.coin(40) ? r.range(-1200, 1200) : r.coin(30) ? INT64_MAX - static_cast<std::int64_t>(r.below(1000)) : r.edgy<std::int64_t>());
        case kind::float4: case kind::float8: {
            static std::vector<double> const e{0.0, -0.0, INFINITY, -INFINITY, NAN, 0.5, -0.5, 1.5, 2.5, -2.5, 1e300, -1e300, 1e35, FLT_MAX, -FLT_MAX, DBL_MAX, -DBL_MAX, DBL_MIN, FLT_MIN, 4.9e-324, 0.49999999999999994, 8388609.0, 4503599627370497.5};
            double d = r.coin(25) ? r.pick(e) : r.coin() ? static_cast<double>(r.range(-2000, 2000)) / 8 : (static_cast<double>(r.next()) / 1.8e19 - 0.5) * std::pow(10.0, static_cast<double>(r.range(-30, 30)));
            if (k == kind::float4) d = static_cast<float>(d);
            return V::d(k, d);
        }
        default: {
            mpz_class c;
            std::size_t n = r.below(39);
            std::string s;
            for (std::size_t i = 0; i < n; ++i) s += static_cast<char>('0' + (r.coin(30) ? r.pick(std::vector<int>{0, 4, 5, 9}) : static_cast<int>(r.below(10))));
            c = s.empty() ? mpz_class(0) : mpz_class(s, 10);
            if (r.coin()) c = -c;
            return V::dec(rec::make_triple(c, static_cast<std::int32_t>(r.coin(90) ? r.range(-42, 12) : r.range(-10000, 10000))));
        }
    }
}
// c*10^e rounded to a multiple of 10^q: mode -1 floor, 0 half away from zero, 1 ceil
static D rounded(D d, std::int64_t q, int mode) {
    if (d.e >= q) return d;
    if (q - d.e > 300) {
        mpz_class z = d.c == 0 || mode == 0 ? 0 : mode > 0 ? (d.c > 0 ? 1 : 0) : (d.c < 0 ? -1 : 0);
        return {z, q};
    }
    mpz_class m = rec::p10(static_cast<unsigned long>(q - d.e)), t = d.c / m, rm = d.c % m;
    if (rm != 0) {
        if (mode > 0 && d.c > 0) ++t;
        else if (mode < 0 && d.c < 0) --t;
        else if (mode == 0 && abs(rm) * 2 >= m) t += d.c < 0 ? -1 : 1;
    }
    return {t, q};
}
static bool equal(D a, D b) {
    if (a.c == 0 || b.c == 0) return a.c == b.c;
    if (std::abs(a.e - b.e) > 300) return false;
    sv::align(a, b);
    return a.c == b.c;
}
// decimal results are compared as numbers
static void judge_dec(std::string const& name, std::vector<V> const& args, D const& want) {
    memory::monotonic_paged_memory_resource mr{&pool};
    kind ret{};
    auto r = call_raw(name, args, nullptr, mr, ret);
    auto t = text_of(name, args);
    VH_CHECK(ret == kind::decimal, name + ".type", t);
    std::string g = r.a.error() ? "an error" : r.a.empty() ? "null" : "a value of another type";
    if (want.c != 0 && sv::digits(want.c) > sv::prec) {      // one more digit than there is room for
        VH_CHECK(r.a.error() || sv::holds(kind::decimal, r.a), name, t << ": " << g);
        vh::event(name + " decimal at the limit");
        return;
    }
    VH_CHECK(sv::holds(kind::decimal, r.a), name, t << ": expected " << want.c << "E" << want.e << ", got " << g);
    auto v = r.a.to<triple>();
    VH_CHECK(equal(sv::d_of(v), want), name, t << ": expected " << want.c << "E" << want.e << ", got " << v);
    vh::event(name + " decimal value");
    vh::nontrivial(vh::hash(t));
}
static void judge_round_float(V const& a, V const* sc, int p) {
    memory::monotonic_paged_memory_resource mr{&pool};
    std::vector<V> args{a};
    if (sc != nullptr) args.push_back(*sc);
    kind ret{};
    auto r = call_raw("round", args, nullptr, mr, ret);
    auto t = text_of("round", args);
    VH_CHECK(ret == a.k && sv::holds(a.k, r.a), "round", t << ": not a value of the type");
    double x = a.v.d, y = sv::val_of(a.k, r.a).d;
    std::ostringstream o; o << std::setprecision(20) << y;
    if (!std::isfinite(x) || x == 0) {
        VH_CHECK(std::isnan(x) ? std::isnan(y) : x == y && std::signbit(x) == std::signbit(y), "round", t << ": must be returned as it is, got " << o.str());
        vh::event("round of a special value");
        return;
    }
    VH_CHECK(std::isfinite(y), "round", t << ": a finite number rounds to " << o.str());
    long double eps = a.k == kind::float4 ? FLT_EPSILON : DBL_EPSILON;
    long double unit = powl(10.0L, -p);
    long double tol = 4 * eps * std::max<long double>(fabsl(x), unit);
    VH_CHECK(fabsl(static_cast<long double>(y) - x) <= unit / 2 + tol, "round", t << ": " << o.str() << " is further away than half a unit");
    long double q = y / unit;
    if (fabsl(q) < 1e15L) VH_CHECK(fabsl(q - roundl(q)) * unit <= 2 * tol, "round", t << ": " << o.str() << " has more digits");
    vh::event("round of a floating point number");
    vh::nontrivial(vh::hash(t));
}
static void numbers(vh::rng& r) {
    static std::vector<kind> const ks{kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal};
    kind k = r.pick(ks);
    bool n = nul(r);
    V a = n ? V::null(k) : rand_num(r, k);
    auto lo = [&](kind q) { return q == kind::int4 ? static_cast<std::int64_t>(INT32_MIN) : INT64_MIN; };
    switch (r.below(5)) {
        case 0: {
            if (n) { judge("abs", {a}, a); break; }
            if (k == kind::int4 || k == kind::int8) {
                if (a.v.i == lo(k)) judge("abs", {a}, V::error(k, ek::arith), error_kind::overflow);
                else judge("abs", {a}, V::i(k, a.v.i < 0 ? -a.v.i : a.v.i));
            } else if (k == kind::decimal) judge("abs", {a}, V::dec(rec::make_triple(abs(rec::coeff(a.v.t)), a.v.t.exponent())));
            else judge("abs", {a}, V::d(k, std::fabs(a.v.d)));
            break;
        }
        case 1: case 2: {
            bool up = r.coin();
            std::string name = up ? "ceil" : "floor";
            if (n) { judge(name, {a}, a); break; }
            if (k == kind::int4 || k == kind::int8) judge(name, {a}, a);
            else if (k == kind::decimal) judge_dec(name, {a}, rounded(sv::d_of(a.v.t), 0, up ? 1 : -1));
            else {
                double x = a.v.d;
                judge(name, {a}, !std::isfinite(x) || x == 0 ? a : V::d(k, up ? std::ceil(x) : std::floor(x)));
            }
            break;
        }
        case 3: {
            static std::vector<kind> const ms{kind::int4, kind::int8, kind::decimal};
            kind k1 = r.pick(ms), k2 = r.pick(ms);
            V x = nul(r) ? V::null(k1) : rand_num(r, k1), y = nul(r) ? V::null(k2) : rand_num(r, k2);
            judge("mod", {x, y}, sv::arith(sv::op::rem, x, y));
            break;
        }
        default: {
            bool one = r.coin(20), sn = nul(r);
            kind sk = r.coin() ? kind::int4 : kind::int8;
            int lim_lo = k == kind::int4 ? -9 : k == kind::int8 ? -18 : k == kind::float4 ? -7 : k == kind::float8 ? -15 : -38;
            int lim_hi = k == kind::int4 || k == kind::int8 ? 0 : -lim_lo;
            std::int64_t s = r.coin(85) ? r.range(lim_lo, lim_hi) : r.coin(80) ? r.range(lim_lo - 2, lim_hi + 2) : sk == kind::int4 ? r.edgy<std::int32_t>() : r.edgy<std::int64_t>();
            if (one) { s = 0; sn = false; }
            V sc = sn ? V::null(sk) : V::i(sk, s);
            std::vector<V> args{a};
            if (!one) args.push_back(sc);
            if (n || sn) { judge("round", args, V::null(k)); break; }
            if (s < lim_lo || s > lim_hi) { judge("round", args, V::error(k, ek::other), error_kind::unsupported); break; }
            if (k == kind::int4 || k == kind::int8) {
                D d = rounded({mpz_class(static_cast<long>(a.v.i)), 0}, -s, 0);
                mpz_class z = sv::scale10(d.c, d.e), hi = mpz_class(static_cast<long>(lo(k)));
                if (z < hi || z > -hi - 1) judge("round", args, V::error(k, ek::arith), error_kind::overflow);
                else judge("round", args, V::i(k, z.get_si()));
            } else if (k == kind::decimal) judge_dec("round", args, rounded(sv::d_of(a.v.t), -s, 0));
            else judge_round_float(a, one ? nullptr : &sc, static_cast<int>(s));
        }
    }
}
static char const* const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(std::string const& s) {
    std::string o;
    for (std::size_t i = 0; i < s.size(); i += 3) {
        unsigned v = 0;
        std::size_t m = std::min<std::size_t>(3, s.size() - i);
        for (std::size_t j = 0; j < 3; ++j) v = v << 8 | (j < m ? static_cast<unsigned char>(s[i + j]) : 0u);
        for (std::size_t j = 0; j < 4; ++j) o += j <= m ? b64[v >> (18 - 6 * j) & 63] : '=';
    }
    return o;
}
static void coding(vh::rng& r) {
    std::string s = r.bytes(r.coin(10) ? 0 : r.coin(90) ? r.below(12) : r.below(3000));
    std::string how = r.coin(85) ? "base64" : r.pick(std::vector<std::string>{"", "hex", "base6", "base644", "base32", "utf8", " base64"});
    for (auto& c : how) if (r.coin(30)) c = static_cast<char>(std::toupper(c));
    bool ok = how.size() == 6 && strcasecmp(how.c_str(), "base64") == 0;
    bool n = nul(r), hn = nul(r);
    V h = hn ? V::null(kind::character) : str(how);
    if (r.coin()) {
        std::vector<V> args{n ? V::null(kind::octet) : oct(s), h};
        if (n) judge("encode", args, V::null(kind::character));
        else if (hn || !ok) judge("encode", args, V::error(kind::character, ek::other), error_kind::unsupported);
        else judge("encode", args, str(enc(s)));
        return;
    }
    std::string e = enc(s);
    bool good = true;
    if (r.coin(25)) {
        switch (r.below(4)) {
            case 0: e += b64[r.below(64)]; good = false; break;
            case 1: e.insert(r.below(e.size() + 1), "="); good = e.empty(); break;
            case 2: if (e.empty()) { e = "!!!!"; } else { e[r.below(e.size())] = r.pick(std::string{"!@-_ \n\x80"}); } good = false; break;
            default: e = "===="; good = false;
        }
    }
    std::vector<V> args{n ? V::null(kind::character) : str(e), h};
    if (n) judge("decode", args, V::null(kind::octet));
    else if (hn || !ok) judge("decode", args, V::error(kind::octet, ek::other), error_kind::unsupported);
    else if (!good) judge("decode", args, V::error(kind::octet, ek::other), error_kind::invalid_input_value);
    else judge("decode", args, oct(s));
}
static void long_values() {
    // the longest value that fits and the first one that does not
    for (std::size_t n : {character_type_max_length_for_value / 4 * 3, character_type_max_length_for_value / 4 * 3 + 1}) {
        std::string s(n, 'x');
        std::string e = enc(s);
        if (e.size() <= character_type_max_length_for_value) judge("encode", {oct(s), str("base64")}, str(e));
        else judge("encode", {oct(s), str("base64")}, V::error(kind::character, ek::other), error_kind::error_info_provided);
    }
    for (std::size_t n : {octet_type_max_length_for_value, octet_type_max_length_for_value + 1}) {
        std::string s(n, 'x');
        if (n <= octet_type_max_length_for_value) judge("decode", {str(enc(s)), str("base64")}, oct(s));
        else judge("decode", {str(enc(s)), str("base64")}, V::error(kind::octet, ek::other), error_kind::error_info_provided);
    }
    for (auto* f : {"upper", "lower", "rtrim", "ltrim"}) {
        std::string s(character_type_max_length_for_value, '1');
        judge(f, {str(s)}, str(s));
    }
}
static void clocks(vh::rng& r) {
    auto cfg = std::make_shared<configuration>();
    std::int32_t z = r.coin(30) ? 0 : static_cast<std::int32_t>(r.range(-14 * 60, 14 * 60));
    cfg->zone_offset(z);
    global::config_pool(cfg);
    transaction_context tx{};
    std::int64_t sec = r.coin(20) ? r.range(-100000, 100000) : r.range(-2208988800LL, 4102444800LL);
    if (r.coin(20)) sec = sec / 86400 * 86400 - z * 60 + static_cast<std::int64_t>(r.below(3)) - 1;
    std::int64_t ns = r.coin(20) ? r.pick(std::vector<std::int64_t>{0, 1, 999999999}) : static_cast<std::int64_t>(r.below(1000000000));
    auto now = [&] { return V::null(kind::date); };
    (void) now;
    for (int round = 0; round < 3; ++round) {
        transaction_context* p = round == 0 ? nullptr : &tx;
        if (round == 2) tx.start_time(transaction_context::clock::time_point{std::chrono::duration_cast<transaction_context::clock::duration>(std::chrono::seconds{sec} + std::chrono::nanoseconds{ns})});
        auto one = [&](char const* name, kind k, V v) {
            if (round < 2) judge(name, {}, V::error(k, ek::other), error_kind::unknown, p);
            else judge(name, {}, v, {}, p);
        };
        std::int64_t ls = sec + z * 60;
        std::int64_t day = ls >= 0 ? ls / 86400 : -((-ls + 86399) / 86400);
        val v; v.null = false;
        val d = v, t = v, ts = v, gm = v;
        d.i = day;
        t.i = (ls - day * 86400) * 1000000000LL + ns;
        ts.i = ls; ts.j = ns;
        gm.i = sec; gm.j = ns;
        one("current_date", kind::date, V::of(kind::date, d));
        one("localtime", kind::time_of_day, V::of(kind::time_of_day, t));
        one("localtimestamp", kind::time_point, V::of(kind::time_point, ts));
        one("current_timestamp", kind::time_point, V::of(kind::time_point, gm));
    }
}
static void registry() {
    std::set<std::size_t> ids;
    for (auto const& d : prov->list()) {
        VH_EXPECT(ids.insert(d->definition_id()).second, "registry", d->name() << ": the function id " << d->definition_id() << " is used twice");
        auto* f = repo.find(d->definition_id());
        VH_EXPECT(f != nullptr, "registry", d->name() << " " << d->definition_id() << " is declared and not registered");
        if (f != nullptr) VH_EXPECT(f->arg_count() == d->parameter_types().size() && f->function_body(), "registry", d->name() << " takes " << d->parameter_types().size() << " arguments, registered with " << f->arg_count());
        vh::event("declared functions");
    }
    VH_EXPECT(repo.size() == ids.size(), "registry", "functions registered " << repo.size() << ", declared " << ids.size());
    VH_EXPECT(repo.find(1) == nullptr, "registry", "an unknown id is found");
}
static void body() {
    ex::details::ensure_decimal_context();
    fn::add_builtin_scalar_functions(*prov, repo);
    vh::guarded("registry", [] { registry(); });
    vh::guarded("long", [] { long_values(); });
    vh::rng r{vh::seed()};
    for (std::uint64_t i = 0, n = vh::scale(150000, 8000000); i < n; ++i) vh::guarded("text", [&] { texts(r); });
    for (std::uint64_t i = 0, n = vh::scale(150000, 8000000); i < n; ++i) vh::guarded("number", [&] { numbers(r); });
    for (std::uint64_t i = 0, n = vh::scale(30000, 1000000); i < n; ++i) vh::guarded("coding", [&] { coding(r); });
    for (std::uint64_t i = 0, n = vh::scale(5000, 200000); i < n; ++i) vh::guarded("clock", [&] { clocks(r); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c30_functions", "a call is not trivial when it yields a value", body);
}
