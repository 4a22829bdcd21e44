// Records for the exchanges: layouts, values with one representation, a writer whose memory does not last, another user of the page pool.
#pragma once
#ifdef EXCH_ENGINE      // the whole engine is linked
#include "db.h"
#else
#include "globals2.h"
#endif
#include "rec.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
using namespace jogasaki;
using namespace rec;
namespace jmem = jogasaki::memory;
using accessor::record_ref;

inline bool same(fdesc const& f, val const& a, val const& b) {
    if (a.null != b.null) return false;
    if (a.null) return true;
    if (f.k == kind::decimal) return a.t.exponent() == b.t.exponent() && dec_cmp(a.t, b.t) == 0;
    return compare(f, a, b) == 0;
}
inline std::vector<kind> const& plain_kinds() {
    static std::vector<kind> v{kind::boolean, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character,
        kind::octet, kind::date, kind::time_of_day, kind::time_point};
    return v;
}
using row = std::vector<val>;
// the layout of one exchange: the last field numbers the records
struct layout {
    std::vector<fdesc> f;
    std::shared_ptr<jm::record_meta> meta;
    layout(vh::rng& g, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            f.push_back(rand_desc(g, plain_kinds()));
            if (f.back().len) f.back().len = 1 + g.below(60);
        }
        fdesc id; id.k = kind::int8; id.nullable = false;
        f.insert(f.begin() + static_cast<std::ptrdiff_t>(g.below(n + 1)), id);
        for (std::size_t i = 0; i < f.size(); ++i) if (f[i].k == kind::int8 && !f[i].nullable) at = i;
        // another not null int8 field may precede it
        for (std::size_t i = 0; i < f.size(); ++i) if (i != at && f[i].k == kind::int8) f[i].nullable = true;
        meta = make_meta(f);
    }
    std::size_t at{};
    std::string str() const { std::string s; for (auto const& d : f) s += d.str() + " "; return s; }
    std::string str(row const& v) const { std::string s; for (std::size_t i = 0; i < f.size(); ++i) s += v[i].str(f[i]) + " "; return s; }
};
// equal values have one representation, as stored values have
inline val canonical(fdesc const& f, val v) {
    if (v.null) return v;
    if ((f.k == kind::float4 || f.k == kind::float8) && std::isnan(v.d)) v.d = std::numeric_limits<double>::quiet_NaN();
    if (f.k == kind::decimal) {
        mpz_class c = coeff(v.t);
        auto e = v.t.exponent();
        if (c == 0) e = 0;
        else while (c % 10 == 0) { c /= 10; ++e; }
        v.t = make_triple(c, e);
    }
    return v;
}
// one record at a time in memory which is overwritten afterwards, as the operators upstream do
struct feeder {
    layout const& l;
    heap_resource heap{};
    explicit feeder(layout const& x) : l(x) {}
    void write(row const& v, std::function<void(record_ref)> const& out) {
        record r(*l.meta, 0x5a);
        for (std::size_t i = 0; i < l.f.size(); ++i) put(r.ref, *l.meta, i, l.f[i], v[i], &heap);
        out(r.ref);
        heap.clear();
    }
};
inline row read(record_ref x, jm::record_meta const& m, layout const& l) {
    row v;
    for (std::size_t i = 0; i < l.f.size(); ++i) v.push_back(get(x, m, i, l.f[i]));
    return v;
}
inline std::string diff(layout const& l, row const& got, row const& want) {
    for (std::size_t i = 0; i < l.f.size(); ++i) if (!same(l.f[i], got[i], want[i]))
        return "field " + std::to_string(i) + " " + l.f[i].str() + ": " + got[i].str(l.f[i]) + " instead of " + want[i].str(l.f[i]);
    return {};
}
// another user of the page pool, which overwrites every page it gets
struct neighbour {
    std::vector<jmem::page_pool::page_info> held;
    ~neighbour() { for (auto& p : held) global::page_pool().release_page(p); }
    void act(vh::rng& g) {
        if (held.size() < 4 && g.coin()) {
            auto p = global::page_pool().acquire_page();
            std::memset(p.address(), 0xee, jmem::page_size / 8);
            held.push_back(p);
        } else if (!held.empty()) {
            global::page_pool().release_page(held.back());
            held.pop_back();
        }
    }
};

