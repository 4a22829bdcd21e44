// Field options and large-object references: equality and texts.
#include "vh.h"
#include <optional>
#include <jogasaki/lob/blob_locator.h>
#include <jogasaki/lob/blob_reference.h>
#include <jogasaki/lob/clob_locator.h>
#include <jogasaki/lob/clob_reference.h>
#include <jogasaki/lob/lob_reference.h>
#include <jogasaki/meta/character_field_option.h>
#include <jogasaki/meta/decimal_field_option.h>
#include <jogasaki/meta/octet_field_option.h>
#include <jogasaki/meta/time_of_day_field_option.h>
#include <jogasaki/meta/time_point_field_option.h>
using namespace vh;
using namespace jogasaki;
namespace {
template <class T> std::string text(T const& v) { std::ostringstream os; os << v; return os.str(); }
using osz = std::optional<std::size_t>;
std::string st(osz const& v) { return v ? std::to_string(*v) : "*"; }
osz num(rng& r) { if (r.coin(30)) return {}; static const std::size_t v[] = {0, 1, 10, 38, 38, 65535, 0xffffffffffffffffULL}; return v[r.below(7)]; }
template <class T> void var(rng& r, const char* n) {
    T d;
    VH_CHECK(d.varying_ && !d.length_, "default", n);
    bool v1 = r.coin(), v2 = r.coin();
    auto l1 = num(r), l2 = num(r);
    T a{v1, l1}, b{v2, l2};
    VH_CHECK((a == b) == (v1 == v2 && l1 == l2), "equal", text(a) << " vs " << text(b));
    VH_CHECK(a == T(a), "equal.self", text(a));
    VH_CHECK(text(a) == std::string(n) + (v1 ? " varying" : "") + "(" + st(l1) + ")", "print", text(a));
    nontrivial(hash(text(a) + text(b)));
}
template <class T> void off(rng& r, const char* n) {
    T d;
    VH_CHECK(!d.with_offset_, "default", n);
    bool x = r.coin(), y = r.coin();
    T a{x}, b{y};
    VH_CHECK((a == b) == (x == y), "equal", text(a) << " vs " << text(b));
    VH_CHECK(text(a) == std::string(n) + "(with_offset=" + (x ? "1" : "0") + ")", "print", text(a));
}
const char* prov[] = {"undefined", "datastore", "sql", "relay_service_session"};
const char* kinds[] = {"undefined", "provided", "fetched", "resolved"};
struct m { int kind{}; std::uint64_t id{}; int p{}; lob::lob_locator const* loc{}; std::optional<std::uint64_t> tag; };
template <class R> R make(m const& x) {
    R v;
    if (x.kind == 1) v = R{*x.loc};
    if (x.kind == 2) v = R{x.id};
    if (x.kind == 3) v = R{x.id, static_cast<lob::lob_data_provider>(x.p)};
    if (x.tag) v.reference_tag(x.tag);
    return v;
}
m gen(rng& r, std::vector<lob::lob_locator> const& locs) {
    m x;
    x.kind = static_cast<int>(r.below(4));
    if (x.kind == 1) x.loc = &locs[r.below(locs.size())];
    if (x.kind >= 2) x.id = r.coin(80) ? r.below(3) : r.next();
    if (x.kind == 2) x.p = 1;
    if (x.kind == 3) x.p = static_cast<int>(r.below(4));
    if (r.coin(30)) x.tag = r.below(3);
    return x;
}
template <class R> void lobs(rng& r, std::vector<lob::lob_locator> const& locs) {
    auto x = gen(r, locs), y = r.coin(40) ? x : gen(r, locs);
    if (r.coin()) y.tag = r.coin() ? std::optional<std::uint64_t>{r.next()} : std::nullopt;
    auto a = make<R>(x), b = make<R>(y);
    VH_CHECK(static_cast<int>(a.kind()) == x.kind && a.object_id() == x.id && static_cast<int>(a.provider()) == x.p && a.locator() == x.loc && a.lob_reference::reference_tag() == x.tag, "lob.fields", text(a));
    bool eq = x.kind == y.kind && (x.kind == 0 || (x.kind == 1 ? x.loc == y.loc : x.id == y.id && x.p == y.p));
    VH_CHECK((a == b) == eq && (a != b) == !eq, "lob.equal", text(a) << " vs " << text(b));
    std::string w = std::string("kind:") + kinds[x.kind];
    if (x.kind != 0) {
        if (x.tag) w += ",tag:" + std::to_string(*x.tag);
        if (x.kind == 1) w += ",locator:{path:\"" + std::string(x.loc->path()) + "\" is_temporary:" + (x.loc->is_temporary() ? "1" : "0") + "}";
        else w += ",id:" + std::to_string(x.id) + ",provider:" + prov[x.p];
    }
    VH_CHECK(text(a) == w, "lob.print", text(a) << " expected " << w);
    a.reference_tag(std::nullopt);
    VH_CHECK(!a.lob_reference::reference_tag() && (a == b) == eq, "lob.tag_cleared", text(a));
    nontrivial(hash(text(a) + text(b)));
    if (r.below(20000) == 0) sample(w);
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c18_meta", "pairs of field options and pairs of large-object references; distinct by the two texts", [] {
        rng r(seed() * 53 + 18);
        std::vector<lob::lob_locator> locs;
        locs.emplace_back();
        for (auto* p : {"/a", "/a", "/a/b", "", "\xe3\x81\x82"}) for (bool t : {false, true}) locs.emplace_back(p, t);
        for (auto& a : locs) for (auto& b : locs) guarded("locator", [&] {
            VH_CHECK((a == b) == (a.path() == b.path() && a.is_temporary() == b.is_temporary()) && (a != b) == !(a == b), "locator.equal", text(a));
            lob::blob_locator x{std::string(a.path()), a.is_temporary()};
            lob::clob_locator y{std::string(a.path()), a.is_temporary()};
            VH_CHECK(x.path() == a.path() && y.path() == a.path() && x.is_temporary() == a.is_temporary() && y.is_temporary() == a.is_temporary(), "locator.fields", text(a));
        });
        for (std::size_t i = 0; i < scale(15000, 300000); ++i) guarded("option", [&] {
            var<meta::character_field_option>(r, "character");
            var<meta::octet_field_option>(r, "octet");
            off<meta::time_of_day_field_option>(r, "time_of_day");
            off<meta::time_point_field_option>(r, "time_point");
            auto p1 = num(r), p2 = num(r), s1 = num(r), s2 = num(r);
            meta::decimal_field_option a{p1, s1}, b{p2, s2}, d;
            VH_CHECK(!d.precision_ && !d.scale_, "default", "decimal");
            VH_CHECK((a == b) == (p1 == p2 && s1 == s2), "equal", text(a) << " vs " << text(b));
            VH_CHECK(text(a) == "decimal(" + st(p1) + ", " + st(s1) + ")", "print", text(a));
        });
        for (std::size_t i = 0; i < scale(30000, 600000); ++i) guarded("lob", [&] {
            lobs<lob::lob_reference>(r, locs); lobs<lob::blob_reference>(r, locs); lobs<lob::clob_reference>(r, locs);
        });
    });
}
