// Record layout, field access, copying and printing against a value model.
#include "rec.h"
#include <glog/logging.h>
#include <jogasaki/accessor/record_copier.h>
#include <jogasaki/accessor/record_printer.h>
#include <jogasaki/meta/external_record_meta.h>
#include <jogasaki/meta/group_meta.h>
#include <jogasaki/utils/copy_field_data.h>
using namespace rec;
using namespace jogasaki;
namespace {
std::string str(std::vector<fdesc> const& f) { std::string s; for (auto& d : f) s += d.str() + ","; return s; }
std::string raw(double d) { return {reinterpret_cast<char const*>(&d), sizeof d}; }
bool same(fdesc const& f, val const& a, val const& b) {
    if (a.null || b.null) return a.null == b.null;
    if (f.k == kind::float4 || f.k == kind::float8) return raw(a.d) == raw(b.d);
    return a.i == b.i && a.j == b.j && a.s == b.s && a.t == b.t;
}
std::vector<fdesc> rand_fields(vh::rng& r, std::size_t max) {
    std::vector<fdesc> f(r.coin(10) ? r.below(70) : r.below(max + 1));
    unsigned np = static_cast<unsigned>(r.below(3));
    for (auto& d : f) { d = rand_desc(r); if (np == 0) d.nullable = true; else if (np == 1) d.nullable = false; }
    return f;
}

void layout(std::uint64_t seed) {
    vh::rng r(seed);
    auto f = rand_fields(r, 20);
    auto pm = make_meta(f);
    auto& m = *pm;
    auto S = str(f);
    VH_CHECK(m.field_count() == f.size(), "layout.count", S);
    std::size_t align = 1, nulls = 0, need = 0;
    std::set<std::size_t> bits;
    std::vector<int> owner(m.record_size() + 64, -1);
    for (auto& d : f) nulls += d.nullable;
    for (std::size_t i = 0; i < f.size(); ++i) {
        auto t = make_type(f[i]);
        VH_CHECK(m[i] == t && m.at(i) == t && *(m.begin() + static_cast<long>(i)) == t, "layout.type", S << i);
        VH_CHECK(m.nullable(i) == f[i].nullable, "layout.nullable", S << i);
        auto a = t.runtime_type_alignment();
        align = std::max(align, a);
        VH_CHECK(m.value_offset(i) % a == 0, "layout.alignment", S << i << " at " << m.value_offset(i));
        VH_CHECK(m.value_offset(i) + t.runtime_type_size() <= m.record_size(), "layout.inside", S << i);
        for (std::size_t k = 0; k < t.runtime_type_size(); ++k) {
            auto& o = owner[m.value_offset(i) + k];
            VH_CHECK(o == -1, "layout.overlap", S << "fields " << o << " and " << i);
            o = static_cast<int>(i);
        }
        need += t.runtime_type_size();
        if (f[i].nullable) {
            VH_CHECK(bits.insert(m.nullity_offset(i)).second, "layout.nullity_shared", S << i);
        } else {
            VH_CHECK(m.nullity_offset(i) == jm::record_meta::npos, "layout.nullity_of_mandatory", S << i);
        }
    }
    for (auto b : bits) {
        VH_CHECK(b / 8 < m.record_size() && owner[b / 8] == -1, "layout.nullity_overlap", S << "bit " << b);
    }
    VH_CHECK(std::distance(m.begin(), m.end()) == static_cast<long>(f.size()), "layout.iterate", S);
    VH_CHECK(m.record_alignment() == align, "layout.record_alignment", S << m.record_alignment() << " expected " << align);
    VH_CHECK(m.record_size() % align == 0, "layout.record_size", S << m.record_size());
    VH_CHECK(jm::record_meta::max_alignment % align == 0, "layout.max_alignment", S);
    // explicit record size: kept when it fits, refused otherwise
    std::vector<jm::field_type> t;
    boost::dynamic_bitset<std::uint64_t> n(f.size());
    for (std::size_t i = 0; i < f.size(); ++i) { t.push_back(make_type(f[i])); n[i] = f[i].nullable; }
    auto want = m.record_size() + r.below(20);
    jm::record_meta big(t, n, want);
    VH_CHECK(big.record_size() == want, "layout.explicit_size", S << big.record_size() << " expected " << want);
    if (m.record_size() > 0) {
        bool thrown = false;
        try { jm::record_meta small(t, n, m.record_size() - 1); } catch (std::exception const&) { thrown = true; }
        VH_CHECK(thrown, "layout.too_small", S);
    }
    // equality by types and nullability
    VH_CHECK(big == m && !(big != m), "meta.equal", S);
    if (!f.empty()) {
        auto g = f;
        auto i = r.below(g.size());
        unsigned what = static_cast<unsigned>(r.below(3));
        if (what == 0) g[i].nullable = !g[i].nullable;
        else if (what == 1) { do g[i] = rand_desc(r); while (make_type(g[i]) == make_type(f[i])); g[i].nullable = f[i].nullable; }
        else { if (r.coin()) g.pop_back(); else g.push_back(rand_desc(r)); }
        auto o = make_meta(g);
        VH_CHECK(*o != m && !(*o == m) && m != *o, "meta.unequal", S << " and " << str(g));
        jm::group_meta x(pm, o), y(m, *o), z(o, pm), w(m, m);
        VH_CHECK(x.key() == m && x.value() == *o && x.key_shared().get() == pm.get() && x.value_shared().get() == o.get(), "group_meta.parts", S);
        VH_CHECK(x == y && !(x != y) && x != z && !(x == z) && x != w && w != x, "group_meta.equal", S << " and " << str(g));
    }
    vh::nontrivial(vh::hash(S));
    if (nulls > 8) vh::event("layouts with more than one nullity byte");
}

void access(std::uint64_t seed) {
    vh::rng r(seed);
    auto f = rand_fields(r, 12);
    auto m = make_meta(f);
    auto S = str(f);
    heap_resource res;
    record a(*m, static_cast<char>(r.next()));
    std::vector<val> v(f.size());
    auto write = [&](std::size_t i) { v[i] = rand_val(r, f[i], 30); put(a.ref, *m, i, f[i], v[i], &res); };
    std::vector<std::size_t> ord(f.size());
    for (std::size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    for (std::size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    for (auto i : ord) write(i);
    for (std::size_t k = r.below(10); k > 0 && !f.empty(); --k) write(r.below(f.size()));
    accessor::const_record_ref ca{a.ref};
    for (std::size_t i = 0; i < f.size(); ++i) {
        auto g = get(a.ref, *m, i, f[i]);
        VH_CHECK(same(f[i], g, v[i]), "access.read", S << i << " wrote " << v[i].str(f[i]) << " read " << g.str(f[i]));
        VH_CHECK(same(f[i], get(ca, *m, i, f[i]), v[i]), "access.const_read", S << i);
        if (f[i].nullable && f[i].k == kind::int8) {
            auto o = a.ref.get_if<std::int64_t>(m->nullity_offset(i), m->value_offset(i));
            auto c = ca.get_if<std::int64_t>(m->nullity_offset(i), m->value_offset(i));
            VH_CHECK(o.has_value() == !v[i].null && (v[i].null || *o == v[i].i), "access.get_if", S << i);
            VH_CHECK(c == o, "access.const_get_if", S << i);
        }
    }
    VH_CHECK(static_cast<bool>(a.ref) && a.ref.size() == m->record_size() && ca.size() == m->record_size() && ca.data() == a.ref.data(), "access.ref", S);
    VH_CHECK(!accessor::record_ref{} && !accessor::const_record_ref{}, "access.null_ref", "");

    // printing names every field with its value
    {
        std::ostringstream o, e;
        o << ca << *m;
        for (std::size_t i = 0; i < f.size(); ++i) {
            std::ostringstream t;
            t << (i ? " " : "") << "(" << i << ":" << (*m)[i] << (f[i].nullable ? "*" : "") << ")[";
            if (v[i].null) t << "-";
            else switch (f[i].k) {
                case kind::boolean: t << (v[i].i ? "true" : "false"); break;
                case kind::int1: case kind::int2: case kind::int4: case kind::int8: t << v[i].i; break;
                case kind::float4: t << static_cast<float>(v[i].d); break;
                case kind::float8: t << v[i].d; break;
                case kind::character: t << v[i].s; break;
                case kind::octet: { char b[4]; for (std::size_t k = 0; k < v[i].s.size(); ++k) { std::snprintf(b, sizeof b, "%s%02x", k ? "-" : "", static_cast<unsigned char>(v[i].s[k])); t << b; } break; }
                case kind::decimal: t << v[i].t; break;
                case kind::date: t << date{v[i].i}; break;
                case kind::time_of_day: t << time_of_day{std::chrono::nanoseconds{v[i].i}}; break;
                case kind::time_point: t << mk_tp(v[i]); break;
                case kind::blob: t << a.ref.get_value<lob::blob_reference>(m->value_offset(i)); break;
                case kind::clob: t << a.ref.get_value<lob::clob_reference>(m->value_offset(i)); break;
                default: break;
            }
            t << "]";
            e << t.str();
        }
        VH_CHECK(o.str() == e.str(), "print", S << " printed " << vh::esc(o.str(), 600) << " expected " << vh::esc(e.str(), 600));
        std::ostringstream z;
        z << accessor::const_record_ref{} << *m;
        VH_CHECK(z.str() == "<null record>", "print.null_record", z.str());
    }

    // copies are independent of the source and its memory
    {
        heap_resource own;
        std::size_t slack = r.below(3) * 8;
        auto big = std::unique_ptr<char[]>(new char[m->record_size() + slack + 1]);
        accessor::record_ref d{big.get(), m->record_size() + slack};
        std::memset(big.get(), 0x5a, m->record_size() + slack);
        bool deep = r.coin(70);
        accessor::record_copier cp{m, deep ? &own : nullptr};
        std::vector<val> w = v;
        auto src = std::make_unique<record>(*m);
        auto sres = std::make_unique<heap_resource>();
        for (std::size_t i = 0; i < f.size(); ++i) put(src->ref, *m, i, f[i], w[i], sres.get());
        if (r.coin()) cp(d, accessor::const_record_ref{src->ref}); else cp(d.data(), m->record_size(), accessor::const_record_ref{src->ref});
        if (deep) { std::memset(src->buf.get(), 0xee, m->record_size()); src.reset(); sres.reset(); }
        for (std::size_t i = 0; i < f.size(); ++i)
            VH_CHECK(same(f[i], get(d, *m, i, f[i]), w[i]), deep ? "copier.deep" : "copier.shallow", S << i << " " << w[i].str(f[i]));
        for (std::size_t k = 0; k < slack; ++k) VH_CHECK(big[m->record_size() + k] == 0x5a, "copier.overrun", S);
        vh::event(deep ? "deep record copies" : "shallow record copies");
        if (m->record_size() > 0) {
            bool thrown = false;
            std::unique_ptr<char[]> d2(new char[m->record_size() + 8]);
            try { cp(d2.get(), m->record_size() + 1, accessor::const_record_ref{a.ref}); } catch (std::exception const&) { thrown = true; }
            VH_CHECK(thrown, "copier.longer_than_source", S);
        }
    }

    // field by field into another layout
    {
        std::vector<std::size_t> perm(f.size());
        for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = i;
        for (std::size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        std::vector<fdesc> g(f.size());
        for (std::size_t i = 0; i < f.size(); ++i) { g[perm[i]] = f[i]; if (!f[i].nullable) g[perm[i]].nullable = r.coin(); }
        auto n = make_meta(g);
        heap_resource own;
        record b(*n, static_cast<char>(r.next()));
        auto src = std::make_unique<record>(*m);
        auto sres = std::make_unique<heap_resource>();
        for (std::size_t i = 0; i < f.size(); ++i) put(src->ref, *m, i, f[i], v[i], sres.get());
        accessor::const_record_ref sc{src->ref};
        bool deep = r.coin(70);
        auto* dr = deep ? &own : nullptr;
        std::vector<any> as(f.size());
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto j = perm[i];
            auto t = make_type(f[i]);
            auto so = m->value_offset(i), to = n->value_offset(j);
            if (f[i].nullable) utils::copy_nullable_field_as_any(t, sc, so, m->nullity_offset(i), as[i], dr);
            else utils::copy_field_as_any(t, sc, so, as[i], dr);
            VH_CHECK(as[i].empty() == v[i].null, "copy_as_any.null", S << i);
            bool via_any = r.coin();
            if (f[i].nullable) {
                if (via_any) utils::copy_nullable_field(t, b.ref, to, n->nullity_offset(j), as[i], dr);
                else utils::copy_nullable_field(t, b.ref, to, n->nullity_offset(j), sc, so, m->nullity_offset(i), dr);
            } else {
                if (via_any) utils::copy_field(t, b.ref, to, as[i], dr); else utils::copy_field(t, b.ref, to, sc, so, dr);
                if (g[j].nullable) b.ref.set_null(n->nullity_offset(j), false);
            }
        }
        if (deep) { std::memset(src->buf.get(), 0xee, m->record_size()); src.reset(); sres.reset(); }
        for (std::size_t i = 0; i < f.size(); ++i) {
            VH_CHECK(same(f[i], get(b.ref, *n, perm[i], g[perm[i]]), v[i]), "copy_field", S << i << " " << v[i].str(f[i]) << " got " << get(b.ref, *n, perm[i], g[perm[i]]).str(f[i]));
            VH_CHECK(same(f[i], of_any(f[i], as[i]), v[i]), "copy_as_any", S << i << " " << v[i].str(f[i]));
        }
    }

    // setting one nullity bit leaves everything else alone
    if (!f.empty()) {
        for (int k = 0; k < 4; ++k) {
            auto i = r.below(f.size());
            if (!f[i].nullable) continue;
            std::string before(a.buf.get(), m->record_size());
            bool to = r.coin();
            a.ref.set_null(m->nullity_offset(i), to);
            std::string after(a.buf.get(), m->record_size());
            auto bit = m->nullity_offset(i);
            before[bit / 8] = static_cast<char>(to ? before[bit / 8] | (1 << bit % 8) : before[bit / 8] & ~(1 << bit % 8));
            VH_CHECK(a.ref.is_null(bit) == to && ca.is_null(bit) == to, "nullity.set", S << i);
            for (std::size_t p = 0; p < f.size(); ++p)
                if (p != i && f[p].nullable) VH_CHECK(a.ref.is_null(m->nullity_offset(p)) == v[p].null, "nullity.neighbour", S << p);
            VH_CHECK(before.size() == after.size(), "nullity.size", "");
            std::size_t diff = 0;
            for (std::size_t p = 0; p < before.size(); ++p) diff += before[p] != after[p] && p != bit / 8;
            VH_CHECK(diff == 0, "nullity.bytes", S << i);
            a.ref.set_null(bit, v[i].null);
        }
    }

    // names of the fields
    {
        std::vector<std::optional<std::string>> names(f.size());
        for (auto& s : names) if (r.coin(80)) s = r.coin(80) ? std::string(1, static_cast<char>('a' + r.below(8))) : "";
        jm::external_record_meta x{m, names};
        VH_CHECK(x.field_count() == f.size() && x.record_size() == m->record_size() && x.record_alignment() == m->record_alignment() && x.origin().get() == m.get(), "external.forward", S);
        for (std::size_t i = 0; i < f.size(); ++i) {
            VH_CHECK(x[i] == (*m)[i] && x.at(i) == (*m)[i] && x.nullable(i) == f[i].nullable && x.value_offset(i) == m->value_offset(i) && x.nullity_offset(i) == m->nullity_offset(i), "external.field", S << i);
            auto nm = x.field_name(i);
            VH_CHECK(nm.has_value() == names[i].has_value() && (!nm || *nm == *names[i]), "external.name", S << i);
        }
        for (std::string q : {"", "a", "b", "c", "d", "e", "f", "g", "h", "zz"}) {
            auto e = static_cast<std::size_t>(std::find_if(names.begin(), names.end(), [&](auto& s) { return s && *s == q; }) - names.begin());
            VH_CHECK(x.field_index(q) == (e == f.size() ? jm::external_record_meta::undefined : e), "external.index", "name '" << q << "' of " << S);
        }
        auto names2 = names;
        jm::external_record_meta y{make_meta(f), names2};
        VH_CHECK(x == y && !(x != y), "external.equal", S);
    }
    std::string h = S;
    for (std::size_t i = 0; i < f.size(); ++i) h += v[i].str(f[i]);
    vh::nontrivial(vh::hash(h));
    vh::event("records written, read, copied and printed");
    if (f.size() == 3) { std::string t; for (std::size_t i = 0; i < f.size(); ++i) t += f[i].str() + "=" + v[i].str(f[i]) + " "; vh::sample(t); }
}

void body() {
    auto n = vh::scale(12000, 250000);
    for (std::size_t i = 0; i < n; ++i) {
        auto s = vh::mix(vh::seed() * 7000003 + i);
        vh::guarded("layout", [&] { layout(s); });
        vh::guarded("access", [&] { access(s + 1); });
    }
}
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c24_layout", "distinct layouts checked and distinct records written, read, copied, printed", body);
}
