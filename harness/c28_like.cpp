// LIKE ... ESCAPE against a matcher over characters.
#include "exprtree.h"
#include "globals2.h"
#include <glog/logging.h>
#include <takatori/scalar/match.h>
#include <jogasaki/executor/expr/evaluator.h>

using namespace jogasaki;
using xt::V;
using rec::kind;
namespace ex = executor::expr;
namespace ts = takatori::scalar;
namespace impl = executor::process::impl;
static memory::page_pool pool;

// characters of a string, or nothing when it is not UTF-8
static std::optional<std::vector<std::string>> chars(std::string const& s) {
    std::vector<std::string> out;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        std::size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (n == 0 || i + n > s.size()) return {};
        for (std::size_t j = 1; j < n; ++j) if ((static_cast<unsigned char>(s[i + j]) & 0xc0) != 0x80) return {};
        out.push_back(s.substr(i, n));
        i += n;
    }
    return out;
}
enum class rs { no, yes, null, error, no_or_null, null_or_error };
struct item { int kind; std::string c; };     // 0 literal character, 1 one character, 2 any characters
static rs by_spec(std::optional<std::string> const& in, std::optional<std::string> const& pat, std::optional<std::string> const& esc) {
    if (!in || !pat || !esc) return rs::null;
    auto ic = chars(*in), pc = chars(*pat), ec = chars(*esc);
    if (!ec) return rs::null_or_error;
    if (ec->size() > 1) return ic && pc ? rs::error : rs::null_or_error;
    if (!pc) return rs::null;
    std::vector<item> items;
    for (std::size_t i = 0; i < pc->size(); ++i) {
        auto& c = (*pc)[i];
        if (!ec->empty() && c == (*ec)[0]) {
            if (++i == pc->size()) return ic ? rs::error : rs::null_or_error;
            items.push_back({0, (*pc)[i]});
        } else items.push_back({c == "%" ? 2 : c == "_" ? 1 : 0, c});
    }
    if (!ic) return items.empty() ? rs::no_or_null : rs::null;
    // reachable[j]: the items so far match the first j characters
    std::vector<char> reach(ic->size() + 1, 0);
    reach[0] = 1;
    for (auto& it : items) {
        std::vector<char> next(reach.size(), 0);
        if (it.kind == 2) { bool on = false; for (std::size_t j = 0; j < reach.size(); ++j) { on = on || reach[j]; next[j] = on; } }
        else for (std::size_t j = 0; j + 1 < reach.size(); ++j) if (reach[j] && (it.kind == 1 || (*ic)[j] == it.c)) next[j + 1] = 1;
        reach = next;
    }
    return reach.back() ? rs::yes : rs::no;
}
static std::string hex(std::optional<std::string> const& s) {
    if (!s) return "null";
    std::string o = "'";
    for (unsigned char c : *s) { if (c >= 0x20 && c < 0x7f) o += static_cast<char>(c); else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    return o + "'";
}
static void one(std::optional<std::string> const& in, std::optional<std::string> const& pat, std::optional<std::string> const& esc, char const* key) {
    static memory::lifo_paged_memory_resource res(&pool);
    yugawara::compiled_info info;
    auto leaf = [&](std::optional<std::string> const& s) {
        V v = s ? V::str(*s) : V::null(kind::character);
        auto e = std::make_unique<ts::immediate>(xt::value_of(kind::character, v.v), xt::type_of(kind::character));
        info.bind(*e, xt::type_of(kind::character));
        return e;
    };
    auto a = leaf(in); auto b = leaf(pat); auto c = leaf(esc);
    ts::match m{ts::match::operator_kind_type::like, std::move(a), std::move(b), std::move(c)};
    info.bind(m, xt::type_of(kind::boolean));
    ex::evaluator ev{m, info};
    ex::evaluator_context ctx{&res};
    auto cp = res.get_checkpoint();
    auto r = ev(ctx, impl::variables_view{}, &res);
    rs got = r.error() ? rs::error : r.empty() ? rs::null : r.type_index() != data::any::index<bool> ? rs::null_or_error : r.to<bool>() ? rs::yes : rs::no;
    res.deallocate_after(cp);
    rs want = by_spec(in, pat, esc);
    bool ok = got == want || (want == rs::no_or_null && (got == rs::no || got == rs::null)) || (want == rs::null_or_error && (got == rs::null || got == rs::error));
    static char const* names[] = {"false", "true", "null", "error", "false or null", "null or error"};
    VH_CHECK(ok, key, hex(in) << " LIKE " << hex(pat) << " ESCAPE " << hex(esc) << ": expected " << names[static_cast<int>(want)] << ", got " << names[static_cast<int>(got)]);
    vh::event("matches");
    vh::event(names[static_cast<int>(want)]);
    if (got == rs::error && want == rs::error && r.error()) {
        VH_CHECK(r.to<ex::error>().kind() == ex::error_kind::invalid_input_value, "error kind", hex(in) << " LIKE " << hex(pat) << " ESCAPE " << hex(esc));
    }
    if (want == rs::yes || want == rs::error) vh::nontrivial(std::hash<std::string>{}(hex(in) + hex(pat) + hex(esc)));
}
// every short pattern over a few characters against every short input
static void small(std::vector<std::string> const& pa, std::vector<std::string> const& ia, std::size_t pn, std::size_t in, std::string const& esc) {
    std::vector<std::string> ps{""}, is{""};
    auto grow = [](std::vector<std::string>& v, std::vector<std::string> const& a, std::size_t n) {
        std::size_t from = 0;
        for (std::size_t l = 0; l < n; ++l) {
            std::size_t to = v.size();
            for (std::size_t i = from; i < to; ++i) for (auto& c : a) v.push_back(v[i] + c);
            from = to;
        }
    };
    grow(ps, pa, pn);
    grow(is, ia, in);
    for (auto& p : ps) for (auto& i : is) one(i, p, esc, "small");
}
static void random(vh::rng& r) {
    std::vector<std::string> a{"a", "b", "\xc3\xa9", "\xc3\xa8", "\xe3\x81\x82", "\xe3\x81\x84", "\xe3\x82\x82", "\xf0\x9f\xa7\xa1", "\xf0\x9f\xa7\xa2", "\\", "%", "_", std::string(1, '\0'), "\x7f", "\xf4\x8f\xbf\xbf", "\xed\x9f\xbf"};
    auto sub = std::vector<std::string>{};
    for (std::size_t i = 0; i < 1 + r.below(4); ++i) sub.push_back(r.pick(a));
    std::optional<std::string> esc = "", pat = "", in = "";
    if (r.coin()) esc = r.coin(70) ? r.pick(sub) : r.pick(a);
    std::size_t n = r.below(r.coin(10) ? 40 : 9);
    std::size_t m = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (!esc->empty() && r.coin(25)) { *pat += *esc; *pat += r.coin(60) ? r.coin() ? "%" : r.coin() ? "_" : *esc : r.pick(sub); }
        else *pat += r.coin(30) ? "%" : r.coin(25) ? "_" : r.pick(sub);
    }
    // an input which follows the pattern, perhaps with a slip
    auto pc = *chars(*pat);
    for (std::size_t i = 0; i < pc.size(); ++i) {
        if (pc[i] == *esc) { if (++i < pc.size()) *in += pc[i]; }
        else if (pc[i] == "%") { m = r.below(r.coin(20) ? 12 : 3); for (std::size_t j = 0; j < m; ++j) *in += r.pick(sub); }
        else if (pc[i] == "_") *in += r.pick(sub);
        else *in += pc[i];
    }
    if (r.coin(30)) {
        auto ic = *chars(*in);
        if (!ic.empty()) {
            auto p = r.below(ic.size());
            if (r.coin()) ic.erase(ic.begin() + static_cast<std::ptrdiff_t>(p)); else ic[p] = r.pick(sub);
            in = ""; for (auto& c : ic) *in += c;
        }
    }
    // null, broken and longer than one character
    for (auto* s : {&esc, &pat, &in}) {
        if (r.coin(3)) *s = std::nullopt;
        else if (r.coin(4) && *s) {
            static std::vector<std::string> const bad{"\x80", "\xff", "\xc3", "\xe3\x81", "\xf0\x9f\xa7", "\xc3\x28", "\xe3\x28\x81", "\xf5\x80\x80\x80", "\xc0"};
            auto cs = chars(**s);
            std::size_t p = 0;
            std::string o;
            std::size_t at = cs ? r.below(cs->size() + 1) : 0;
            if (cs) for (auto& c : *cs) { if (p++ == at) o += r.pick(bad); o += c; }
            if (p == at) o += r.pick(bad);
            *s = o;
        }
    }
    if (esc && r.coin(2)) *esc += r.pick(sub);
    one(in, pat, esc, "random");
}
static void body() {
    auto l = vh::scale(0, 1);
    for (auto esc : {"", "\\", "%", "_", "\xe3\x81\x82", "a"}) {
        std::string e = esc;
        vh::guarded("small", [&] { small({"a", "\xe3\x81\x82", "%", "_"}, {"a", "\xe3\x81\x82", "\xe3\x81\x84"}, 4 + l, 3 + l, e); });
        vh::guarded("small", [&] { small({"%", "_", "\xc3\xa9", "\\"}, {"%", "\xc3\xa9", "\xe3\x81\x82"}, 4 + l, 3 + l, e); });
    }
    vh::rng r{vh::seed()};
    for (std::uint64_t i = 0, n = vh::scale(150000, 4000000); i < n; ++i) vh::guarded("random", [&] { random(r); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c28_like", "a match is not trivial when it succeeds or is refused", body);
}
