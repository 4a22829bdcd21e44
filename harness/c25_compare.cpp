// Record comparison, value order and equality, hashing and partitioning against the documented order.
#include "rec.h"
#include <glog/logging.h>
#include <jogasaki/executor/comparator.h>
#include <jogasaki/executor/equal_to.h>
#include <jogasaki/executor/hash.h>
#include <jogasaki/executor/less.h>
#include <jogasaki/executor/partitioner.h>
using namespace rec;
using namespace jogasaki;
namespace ex = jogasaki::executor;
namespace {
template <class T>
void pair(fdesc const& f, val const& a, val const& b, T const& x, T const& y) {
    int c = compare(f, a, b);
    ex::less l;
    VH_CHECK(l(x, y) == (c < 0) && l(y, x) == (c > 0), "less", f.str() << " " << a.str(f) << " and " << b.str(f));
    VH_CHECK(!l(x, x) && !l(y, y), "less.reflexive", f.str() << " " << a.str(f) << " and " << b.str(f));
    VH_CHECK(ex::equal_to(x, y) == (c == 0) && ex::equal_to(y, x) == (c == 0), "equal_to", f.str() << " " << a.str(f) << " and " << b.str(f));
    VH_CHECK(ex::equal_to(x, x) && ex::equal_to(y, y), "equal_to.reflexive", f.str() << " " << a.str(f));
}
void values(std::uint64_t seed) {
    vh::rng r(seed);
    auto f = rand_desc(r);
    if (f.k == kind::decimal && r.coin()) { f.p = 38; f.s = r.below(39); }
    val a = rand_val(r, f, 0), b = near_val(r, f, a);
    if (b.null) b = a;
    if (f.k == kind::decimal && r.coin(40)) {        // the same or a close number written with another exponent
        mpz_class c = coeff(a.t);
        auto e = a.t.exponent();
        for (auto k = r.below(20); k > 0 && c < p10(36) && c > -p10(36); --k) { c *= 10; --e; }
        if (r.coin(40)) c += r.coin() ? 1 : -1;
        b.t = make_triple(c, e);
    }
    if (f.k == kind::decimal && r.coin(10)) { a.t = make_triple(rand_mpz(r, 38), static_cast<std::int32_t>(r.range(-24000, 24000))); if (r.coin()) b.t = make_triple(rand_mpz(r, 38), a.t.exponent() + static_cast<std::int32_t>(r.range(-40, 40))); }
    if (f.k == kind::float4 || f.k == kind::float8) { if (r.coin(5)) { a.d = 0.0; b.d = -0.0; } }
    heap_resource res;
    switch (f.k) {
        case kind::boolean: pair<runtime_t<kind::boolean>>(f, a, b, static_cast<std::int8_t>(a.i), static_cast<std::int8_t>(b.i)); break;
        case kind::int1: case kind::int2: case kind::int4: pair<std::int32_t>(f, a, b, static_cast<std::int32_t>(a.i), static_cast<std::int32_t>(b.i)); break;
        case kind::int8: pair<std::int64_t>(f, a, b, a.i, b.i); break;
        case kind::float4: pair<float>(f, a, b, static_cast<float>(a.d), static_cast<float>(b.d)); break;
        case kind::float8: pair<double>(f, a, b, a.d, b.d); break;
        case kind::decimal: pair<triple>(f, a, b, a.t, b.t); break;
        case kind::character: pair(f, a, b, accessor::text{&res, a.s}, accessor::text{&res, b.s}); break;
        case kind::octet: pair(f, a, b, accessor::binary{&res, a.s}, accessor::binary{&res, b.s}); break;
        case kind::date: pair(f, a, b, date{a.i}, date{b.i}); break;
        case kind::time_of_day: pair(f, a, b, time_of_day{std::chrono::nanoseconds{a.i}}, time_of_day{std::chrono::nanoseconds{b.i}}); break;
        case kind::time_point: pair(f, a, b, mk_tp(a), mk_tp(b)); break;
        default: return;
    }
    vh::nontrivial(vh::hash(f.str() + a.str(f) + b.str(f)));
    vh::event(compare(f, a, b) == 0 ? "equal value pairs" : "unequal value pairs");
}

void records(std::uint64_t seed) {
    vh::rng r(seed);
    std::vector<fdesc> f(1 + r.below(5)), g;
    for (auto& d : f) d = rand_desc(r);
    g = f;
    bool two = r.coin();        // a right side of another nullability and so another layout
    if (two) for (auto& d : g) if (r.coin()) d.nullable = !d.nullable;
    auto lm = make_meta(f), rm = make_meta(g);
    std::vector<ex::ordering> ord;
    unsigned om = static_cast<unsigned>(r.below(4));
    if (om != 0) for (std::size_t i = 0; i < f.size(); ++i) ord.push_back(static_cast<ex::ordering>(r.below(3)));
    ex::compare_info info = om == 0 && two && r.coin() ? ex::compare_info{*lm, *rm} : two ? ex::compare_info{*lm, *rm, ord} : ex::compare_info{*lm, ord};
    if (!two) { g = f; rm = lm; }
    VH_CHECK(&info.left() == lm.get() && &info.right() == rm.get(), "info.sides", "");
    std::string S;
    for (std::size_t i = 0; i < f.size(); ++i) {
        bool desc = !ord.empty() && ord[i] == ex::ordering::descending;
        VH_CHECK(info.opposite(i) == desc, "info.opposite", i);
        S += f[i].str() + (desc ? " desc," : ",");
    }
    ex::comparator cmp{info};
    auto res = std::make_unique<heap_resource>();
    for (int k = 0; k < 4; ++k) {
        record x(*lm), y(*rm);
        std::vector<val> a(f.size()), b(f.size());
        int want = 0;
        bool prefix = r.coin(70);
        for (std::size_t i = 0; i < f.size(); ++i) {
            a[i] = rand_val(r, f[i], 20);
            b[i] = prefix && i + 1 < f.size() && r.coin(80) ? a[i] : near_val(r, f[i], a[i]);
            if (!g[i].nullable && b[i].null) b[i] = rand_val(r, g[i]);
            if (g[i].nullable && r.coin(10)) b[i] = {};
            put(x.ref, *lm, i, f[i], a[i], res.get());
            put(y.ref, *rm, i, g[i], b[i], res.get());
            if (want == 0) { want = compare(f[i], a[i], b[i]); if (info.opposite(i)) want = -want; }
        }
        auto d = [&] { std::string t = S; for (std::size_t i = 0; i < f.size(); ++i) t += " " + a[i].str(f[i]) + "|" + b[i].str(f[i]); return t; };
        accessor::const_record_ref cx{x.ref}, cy{y.ref};
        int got = cmp(cx, cy);
        VH_CHECK((got < 0) == (want < 0) && (got > 0) == (want > 0), "comparator", d() << " got " << got << " expected " << want);
        if (!two) {
            int back = cmp(cy, cx);
            VH_CHECK((back < 0) == (want > 0) && (back > 0) == (want < 0) && cmp(cx, cx) == 0, "comparator.antisymmetric", d());
        }
        vh::event(want == 0 ? "equal records" : "unequal records");
        vh::nontrivial(vh::hash(d()));
        // equal keys go to the same partition; every partition number is in range
        ex::hash h{lm.get()};
        std::size_t parts = 1 + r.below(r.coin() ? 4 : 1000);
        ex::partitioner p{parts, lm};
        VH_CHECK(p(cx) < parts, "partition.range", d());
        record z(*lm, static_cast<char>(r.next()));      // another copy: other padding, other out-of-line memory, other zero
        heap_resource other;
        for (std::size_t i = 0; i < f.size(); ++i) {
            val v = a[i];
            if ((f[i].k == kind::float4 || f[i].k == kind::float8) && !v.null && v.d == 0) v.d = r.coin() ? 0.0 : -0.0;
            put(z.ref, *lm, i, f[i], v, &other);
        }
        VH_CHECK(h(cx) == h(accessor::const_record_ref{z.ref}), "hash.equal_keys", d());
        VH_CHECK(h(z.ref.data()) == h(accessor::const_record_ref{z.ref}), "hash.pointer", d());
        VH_CHECK(p(cx) == p(accessor::const_record_ref{z.ref}), "partition.equal_keys", d());
    }
    // metadata which does not correspond is refused
    if (r.coin(30)) {
        auto e = f;
        unsigned what = static_cast<unsigned>(r.below(3));
        auto o = ord;
        if (what == 0) e.pop_back();
        else if (what == 1) { auto i = r.below(e.size()); do e[i] = rand_desc(r); while (make_type(e[i]) == make_type(f[i])); }
        else { o.assign(f.size() + 1, ex::ordering::ascending); if (r.coin()) { o.pop_back(); o.pop_back(); if (o.empty()) return; } }
        auto em = make_meta(e);
        bool thrown = false;
        try { ex::compare_info bad{*lm, *em, o}; } catch (std::exception const&) { thrown = true; }
        VH_CHECK(thrown, "info.mismatch", S << " case " << what);
        vh::event("mismatched comparisons refused");
    }
}
void spread(std::uint64_t seed) {
    vh::rng r(seed);
    for (auto k : all_kinds()) {
        if (k == kind::boolean || k == kind::blob || k == kind::clob) continue;
        fdesc f; f.k = k; f.nullable = r.coin(); if (k == kind::decimal) { f.p = 30; f.s = 2; }
        auto m = make_meta({f});
        ex::partitioner p{3, m};
        std::set<std::size_t> seen;
        heap_resource res;
        for (int i = 0; i < 400; ++i) { record x(*m); put(x.ref, *m, 0, f, rand_val(r, f, 0), &res); seen.insert(p(accessor::const_record_ref{x.ref})); }
        VH_CHECK(seen.size() == 3, "partition.spread", jm::to_string_view(k) << " uses " << seen.size() << " of 3 partitions for 400 keys");
    }
}
void body() {
    auto n = vh::scale(40000, 800000);
    for (std::size_t i = 0; i < n; ++i) {
        auto s = vh::mix(vh::seed() * 5000011 + i);
        vh::guarded("values", [&] { values(s); });
        vh::guarded("records", [&] { records(s + 1); });
        if (i % 2000 == 0) vh::guarded("spread", [&] { spread(s + 2); });
    }
}
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c25_compare", "distinct value pairs and record pairs compared", body);
}
