// C23: stored keys and values - reference encoder, order monitor, decoding, damaged data.
#include "rec.h"
#include "globals.h"
#include <jogasaki/kvs/coder.h>
#include <jogasaki/kvs/readable_stream.h>
#include <jogasaki/kvs/writable_stream.h>
#include <jogasaki/utils/coder.h>

using namespace rec;
namespace kvs = jogasaki::kvs;
using jogasaki::status;

static void be(std::string& o, std::uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += static_cast<char>(v >> (8 * i)); }

static std::size_t dec_bytes(std::size_t p) {
    mpz_class m = p10(p) - 1;
    std::size_t n = 1;
    for (mpz_class top = 127; top < m; top = top * 256 + 255) ++n;
    return n;
}

enum class want { ok, too_long, bad_text, bad_decimal };

// written from docs/dataformat-ja.md
static want ref_field(std::string& out, fdesc const& f, val const& v, kvs::coding_spec sp, bool for_write) {
    std::string b;
    if (f.nullable) b += static_cast<char>(v.null ? 0x80 : 0x81);
    if (!v.null) {
        switch (f.k) {
            case kind::boolean: b += static_cast<char>(0x80 + v.i); break;
            case kind::int1: case kind::int2: case kind::int4: be(b, static_cast<std::uint32_t>(v.i) ^ 0x80000000U, 4); break;
            case kind::int8: case kind::date: case kind::time_of_day: be(b, static_cast<std::uint64_t>(v.i) ^ (1ULL << 63), 8); break;
            case kind::time_point:
                be(b, static_cast<std::uint64_t>(v.i) ^ (1ULL << 63), 8);
                be(b, static_cast<std::uint32_t>(v.j) ^ 0x80000000U, 4);
                break;
            case kind::float4: {
                std::uint32_t u;
                auto d = static_cast<float>(v.d);
                std::memcpy(&u, &d, 4);
                u = std::isnan(v.d) ? 0xffc00000U : v.d == 0 ? 0x80000000U : v.d > 0 ? u ^ 0x80000000U : ~u;
                be(b, u, 4);
                break;
            }
            case kind::float8: {
                std::uint64_t u;
                std::memcpy(&u, &v.d, 8);
                u = std::isnan(v.d) ? 0xfff8000000000000ULL : v.d == 0 ? 1ULL << 63 : v.d > 0 ? u ^ (1ULL << 63) : ~u;
                be(b, u, 8);
                break;
            }
            case kind::blob: case kind::clob: be(b, static_cast<std::uint64_t>(v.i), 8); break;
            case kind::decimal: {
                mpz_class c = coeff(v.t);
                std::int64_t sh = v.t.exponent() + static_cast<std::int64_t>(*f.s);
                if (sh >= 0) { if (c != 0) { if (sh > 60) return want::bad_decimal; c *= p10(static_cast<unsigned long>(sh)); } }
                else {
                    if (-sh > 60) { if (c != 0) return want::bad_decimal; }
                    else { mpz_class u = p10(static_cast<unsigned long>(-sh)); if (c % u != 0) return want::bad_decimal; c /= u; }
                }
                mpz_class top = p10(*f.p);
                if (c >= top || c <= -top) return want::bad_decimal;
                std::size_t n = dec_bytes(*f.p);
                mpz_class one = 1;
                mpz_class bias = one << (8 * n - 1);
                mpz_class x = c + bias;         // two's complement with the sign bit flipped
                std::string d;
                for (std::size_t i = 0; i < n; ++i) { mpz_class lo = x % 256; d.insert(d.begin(), static_cast<char>(lo.get_ui())); x /= 256; }
                b += d;
                break;
            }
            case kind::character: {
                std::size_t max = f.len ? *f.len : f.varying ? (sp.is_key() ? 30716 : 2097132) : 1;
                if (for_write && v.s.size() > max) return want::too_long;
                if (v.s.find('\0') != std::string::npos) return want::bad_text;
                b += v.s;
                if (for_write && !f.varying && v.s.size() < max) b += std::string(max - v.s.size(), ' ');
                b += std::string(4, '\0');
                break;
            }
            case kind::octet: {
                std::size_t max = f.len ? *f.len : f.varying ? (sp.is_key() ? 30716 : 2097132) : 1;
                if (for_write && v.s.size() > max) return want::too_long;
                if (f.varying) be(b, v.s.size(), 4);
                b += v.s;
                if (for_write && !f.varying && v.s.size() < max) b += std::string(max - v.s.size(), '\0');
                break;
            }
            default: std::abort();
        }
    }
    if (sp.ordering() != kvs::order::ascending) for (auto& c : b) c = static_cast<char>(~c);
    out += b;
    return want::ok;
}

static status expected(want w) {
    switch (w) {
        case want::ok: return status::ok;
        case want::too_long: return status::err_insufficient_field_storage;
        case want::bad_text: return status::err_invalid_runtime_value;
        default: return status::err_expression_evaluation_failure;
    }
}

struct schema {
    std::vector<fdesc> f;
    std::vector<kvs::coding_spec> sp;
    bool for_write{true};
    std::string str() const {
        std::string s = for_write ? "write:" : "search:";
        for (std::size_t i = 0; i < f.size(); ++i) s += f[i].str() + (sp[i].is_key() ? sp[i].ordering() == kvs::order::ascending ? "^ " : "v " : "= ");
        return s;
    }
};
using row = std::vector<val>;
static std::string rstr(schema const& s, row const& r) {
    std::string o;
    for (std::size_t i = 0; i < r.size(); ++i) o += r[i].str(s.f[i]) + ", ";
    return o;
}

// leaves junk behind in the decimal context of the thread, as a failed cast or division does
static void stale(vh::rng& r) {
    if (!r.coin(20)) return;
    if (r.coin()) { decimal::Decimal d{std::string("abc")}; (void) d; }
    else { auto d = decimal::Decimal{0} / decimal::Decimal{0}; (void) d; }
}

enum class way { record, anyval };
// encodes into a buffer of the given capacity
static status enc(schema const& s, row const& r, way w, char* buf, std::size_t cap, std::size_t& used, bool ignore = false) {
    heap_resource res;
    kvs::coding_context ctx{};
    ctx.coding_for_write(s.for_write);
    kvs::writable_stream ws{buf, cap, ignore};
    auto meta = make_meta(s.f);
    record rc{*meta};
    status st = status::ok;
    if (w == way::record) for (std::size_t i = 0; i < s.f.size(); ++i) put(rc.ref, *meta, i, s.f[i], r[i], &res);
    for (std::size_t i = 0; i < s.f.size() && st == status::ok; ++i) {
        auto t = make_type(s.f[i]);
        if (w == way::record) {
            st = s.f[i].nullable ? kvs::encode_nullable(rc.ref, meta->value_offset(i), meta->nullity_offset(i), t, s.sp[i], ctx, ws)
                                 : kvs::encode(rc.ref, meta->value_offset(i), t, s.sp[i], ctx, ws);
        } else {
            auto a = to_any(s.f[i], r[i], &res);
            st = s.f[i].nullable ? kvs::encode_nullable(a, t, s.sp[i], ctx, ws) : kvs::encode(a, t, s.sp[i], ctx, ws);
        }
    }
    used = ws.size();
    return st;
}

// what must come back
static val stored(fdesc const& f, val v, bool for_write) {
    if (v.null) return v;
    if (f.k == kind::character && for_write && !f.varying) v.s.resize(f.len.value_or(1), ' ');
    if (f.k == kind::octet && for_write && !f.varying) v.s.resize(f.len.value_or(1), '\0');
    if ((f.k == kind::float4 || f.k == kind::float8) && v.d == 0) v.d = 0;
    return v;
}
static bool same(fdesc const& f, val const& a, val const& b) {
    if (a.null != b.null) return false;
    if (a.null) return true;
    if (f.k == kind::float4 || f.k == kind::float8) return compare(f, a, b) == 0 && (std::isnan(a.d) || std::signbit(a.d) == std::signbit(b.d));
    return compare(f, a, b) == 0;
}

static schema rand_schema(vh::rng& r, bool key) {
    schema s;
    std::size_t n = 1 + r.below(4);
    for (std::size_t i = 0; i < n; ++i) {
        fdesc f = rand_desc(r);
        if (f.k == kind::octet && !f.varying && !f.len) f.len = 1;
        if (key) while (f.k == kind::blob || f.k == kind::clob || (f.k == kind::octet && f.varying)) { f = rand_desc(r); }
        if (f.k == kind::octet && !f.varying && !f.len) f.len = 1;
        s.f.push_back(f);
        s.sp.push_back(!key ? kvs::spec_value : r.coin() ? kvs::spec_key_ascending : kvs::spec_key_descending);
    }
    s.for_write = r.coin(85);
    return s;
}

static std::size_t const CAP = 8192;

static void decode_check(vh::rng& r, schema const& s, row const& v, std::string const& bytes) {
    auto exact = std::unique_ptr<char[]>(new char[std::max<std::size_t>(bytes.size(), 1)]);
    std::memcpy(exact.get(), bytes.data(), bytes.size());
    auto what = s.str() + " " + rstr(s, v) + " bytes " + vh::esc(bytes);
    auto meta = make_meta(s.f);
    heap_resource res;
    for (int path = 0; path < 3; ++path) {
        kvs::coding_context ctx{};
        kvs::readable_stream rs{exact.get(), bytes.size()};
        record rc{*meta, static_cast<char>(0xa5)};
        std::size_t at = 0;
        for (std::size_t i = 0; i < s.f.size(); ++i) {
            auto t = make_type(s.f[i]);
            bool fixed_unpadded = s.f[i].k == kind::octet && !s.f[i].varying && !s.for_write;
            if (fixed_unpadded) return;         // a search key is not decoded
            status st{};
            val got;
            any a;
            if (path == 0) {
                st = s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), meta->nullity_offset(i), &res)
                                     : kvs::decode(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), &res);
                if (st == status::ok) got = get(rc.ref, *meta, i, s.f[i]);
            } else if (path == 1) {
                st = s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, a, &res) : kvs::decode(rs, t, s.sp[i], ctx, a, &res);
                if (st == status::ok) got = of_any(s.f[i], a);
            } else {
                st = s.f[i].nullable ? kvs::consume_stream_nullable(rs, t, s.sp[i], ctx) : kvs::consume_stream(rs, t, s.sp[i], ctx);
            }
            VH_CHECK(st == status::ok, "decode.status", what << " field " << i << " path " << path << " status " << static_cast<int>(st));
            std::string one;
            ref_field(one, s.f[i], v[i], s.sp[i], s.for_write);
            at += one.size();
            VH_CHECK(rs.size() == at, "decode.position", what << " field " << i << " path " << path << " position " << rs.size() << " expected " << at);
            VH_CHECK(rs.rest().size() == bytes.size() - at, "decode.rest", what << " field " << i);
            if (path < 2) {
                auto w = stored(s.f[i], v[i], s.for_write);
                VH_CHECK(same(s.f[i], got, w), "decode.value", what << " field " << i << " path " << path << " got " << got.str(s.f[i]) << " expected " << w.str(s.f[i]));
            }
        }
    }
    vh::event("decoded rows");
    // every truncation is refused at the field it cuts, without looking past the end
    for (std::size_t k = 0; k < 3 && !bytes.empty(); ++k) {
        std::size_t cut = k == 0 ? bytes.size() - 1 : r.below(bytes.size());
        auto ex = std::unique_ptr<char[]>(new char[std::max<std::size_t>(cut, 1)]);
        std::memcpy(ex.get(), bytes.data(), cut);
        kvs::coding_context ctx{};
        kvs::readable_stream rs{ex.get(), cut};
        record rc{*meta};
        bool refused = false;
        unsigned path = static_cast<unsigned>(r.below(3));
        std::size_t at = 0;
        for (std::size_t i = 0; i < s.f.size() && !refused; ++i) {
            std::string one;
            ref_field(one, s.f[i], v[i], s.sp[i], s.for_write);
            auto t = make_type(s.f[i]);
            any a;
            status st = path == 0 ? (s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), meta->nullity_offset(i), &res)
                                                     : kvs::decode(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), &res))
                : path == 1 ? (s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, a, &res) : kvs::decode(rs, t, s.sp[i], ctx, a, &res))
                : (s.f[i].nullable ? kvs::consume_stream_nullable(rs, t, s.sp[i], ctx) : kvs::consume_stream(rs, t, s.sp[i], ctx));
            at += one.size();
            bool whole = at <= cut;
            VH_CHECK(whole == (st == status::ok), "truncated.status", what << " cut to " << cut << " field " << i << " path " << path << " status " << static_cast<int>(st));
            VH_CHECK(whole || st == status::err_data_corruption, "truncated.code", what << " cut to " << cut << " status " << static_cast<int>(st));
            refused = !whole;
        }
        vh::event("truncations");
    }
}

static void one_case(std::uint64_t seed) {
    vh::rng r(seed);
    bool key = r.coin(65);
    schema s = rand_schema(r, key);
    row a, b;
    for (auto& f : s.f) {
        a.push_back(rand_val(r, f));
        b.push_back(near_val(r, f, a.back()));
    }
    for (auto* v : {&a, &b}) for (std::size_t i = 0; i < s.f.size(); ++i) {         // values that must be refused
        auto& x = (*v)[i];
        if (x.null || !r.coin(4)) continue;
        auto& f = s.f[i];
        if (f.k == kind::character) { if (r.coin()) x.s.insert(r.below(x.s.size() + 1), 1, '\0'); else x.s += std::string(1 + r.below(40), 'x'); }
        if (f.k == kind::octet) x.s += r.bytes(1 + r.below(40));
        if (f.k == kind::decimal) x.t = make_triple(rand_mpz(r, 38), static_cast<std::int32_t>(r.range(-45, 25)));
    }
    std::string ea, eb;
    want wa = want::ok, wb = want::ok;
    for (std::size_t i = 0; i < s.f.size() && wa == want::ok; ++i) wa = ref_field(ea, s.f[i], a[i], s.sp[i], s.for_write);
    for (std::size_t i = 0; i < s.f.size() && wb == want::ok; ++i) wb = ref_field(eb, s.f[i], b[i], s.sp[i], s.for_write);
    auto what = s.str() + " " + rstr(s, a);
    std::string got[2];
    for (int k = 0; k < 2; ++k) {
        auto& v = k == 0 ? a : b;
        auto w = k == 0 ? wa : wb;
        auto& ref = k == 0 ? ea : eb;
        stale(r);
        auto buf = std::unique_ptr<char[]>(new char[CAP]);
        std::size_t used{};
        auto wy = r.coin() ? way::record : way::anyval;
        auto st = enc(s, v, wy, buf.get(), CAP, used);
        auto wh = s.str() + " " + rstr(s, v);
        VH_CHECK(st == expected(w), "encode.status", wh << " status " << static_cast<int>(st) << " expected " << static_cast<int>(expected(w)));
        if (w != want::ok) { vh::event("refused rows"); continue; }
        got[k].assign(buf.get(), used);
        VH_CHECK(got[k] == ref, "encode.bytes", wh << " got " << vh::esc(got[k]) << " expected " << vh::esc(ref));
        vh::nontrivial(vh::hash(got[k]));
        // a buffer of exactly the size serves, a smaller one is refused and stays untouched outside
        auto tight = std::unique_ptr<char[]>(new char[std::max<std::size_t>(used, 1)]);
        std::size_t u2{};
        decimal::context.clear_status();
        VH_CHECK(enc(s, v, wy, tight.get(), used, u2) == status::ok && u2 == used && std::memcmp(tight.get(), ref.data(), used) == 0, "encode.exactroom", wh);
        if (used > 0) {
            std::size_t cap = r.below(used);
            auto small = std::unique_ptr<char[]>(new char[std::max<std::size_t>(cap, 1)]);
            bool thrown = false;
            try { (void) enc(s, v, wy, small.get(), cap, u2); } catch (std::logic_error const&) { thrown = true; }
            VH_CHECK(thrown, "encode.overflow", wh << " capacity " << cap << " of " << used);
            std::size_t u3{};
            VH_CHECK(enc(s, v, wy, small.get(), cap, u3, true) == status::ok && u3 == used, "encode.measure", wh << " measured " << u3 << " of " << used << " capacity " << cap);
        }
        decode_check(r, s, v, got[k]);
    }
    if (key && wa == want::ok && wb == want::ok) {
        int want_c = 0;
        for (std::size_t i = 0; i < s.f.size() && want_c == 0; ++i) {
            auto x = stored(s.f[i], a[i], s.for_write), y = stored(s.f[i], b[i], s.for_write);
            want_c = compare(s.f[i], x, y);
            if (s.sp[i].ordering() == kvs::order::descending) want_c = -want_c;
            if (s.f[i].k == kind::octet && !s.for_write && want_c != 0) return;     // unpadded parts are prefixes only
        }
        int c = got[0].compare(got[1]);
        c = c < 0 ? -1 : c > 0 ? 1 : 0;
        VH_CHECK(c == want_c, "key.order", what << " vs " << rstr(s, b) << " bytes order " << c << " value order " << want_c);
        vh::event(want_c < 0 ? "ordered pairs <" : want_c > 0 ? "ordered pairs >" : "ordered pairs =");
    }
    vh::sample(what);
}

// encode_any: one type, several values, growing target
static void any_case(std::uint64_t seed) {
    vh::rng r(seed);
    fdesc f = rand_desc(r);
    if (f.k == kind::octet && !f.varying && !f.len) f.len = 3;
    auto sp = r.coin(30) ? kvs::spec_value : r.coin() ? kvs::spec_key_ascending : kvs::spec_key_descending;
    kvs::coding_context ctx{};
    bool fw = r.coin();
    ctx.coding_for_write(fw);
    heap_resource res;
    val v = rand_val(r, f), w = rand_val(r, f);
    jogasaki::data::aligned_buffer buf{r.below(40)};
    stale(r);
    auto st = jogasaki::utils::encode_any(buf, make_type(f), f.nullable, sp, ctx, {to_any(f, v, &res), to_any(f, w, &res)});
    std::string ref;
    auto x = ref_field(ref, f, v, sp, fw);
    if (x == want::ok) x = ref_field(ref, f, w, sp, fw);
    VH_CHECK(st == expected(x), "encode_any.status", f.str() << " " << v.str(f) << " status " << static_cast<int>(st));
    if (x == want::ok) {
        std::string got{static_cast<std::string_view>(buf)};
        VH_CHECK(got == ref, "encode_any.bytes", f.str() << " " << v.str(f) << " " << w.str(f) << " got " << vh::esc(got) << " expected " << vh::esc(ref));
    }
    if (r.coin(10)) {
        bool thrown = false;
        try { (void) jogasaki::utils::encode_any(buf, make_type(f), false, sp, ctx, {any{}}); } catch (std::logic_error const&) { thrown = true; }
        VH_CHECK(thrown, "encode_any.null", f.str());
    }
    vh::event("encode_any calls");
}

// foreign bytes: refused or decoded, never read past the end
static void junk_case(std::uint64_t seed) {
    vh::rng r(seed);
    schema s = rand_schema(r, r.coin());
    s.for_write = true;
    std::string b = r.bytes(r.below(r.coin() ? 12 : 80));
    for (auto& c : b) if (r.coin(30)) c = r.coin() ? '\0' : r.coin() ? '\xff' : static_cast<char>(0x80 + r.below(2));
    auto ex = std::unique_ptr<char[]>(new char[std::max<std::size_t>(b.size(), 1)]);
    std::memcpy(ex.get(), b.data(), b.size());
    auto meta = make_meta(s.f);
    heap_resource res;
    kvs::coding_context ctx{};
    kvs::readable_stream rs{ex.get(), b.size()};
    record rc{*meta};
    unsigned path = static_cast<unsigned>(r.below(2));
    for (std::size_t i = 0; i < s.f.size(); ++i) {
        auto t = make_type(s.f[i]);
        any a;
        auto st = path == 0 ? (s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), meta->nullity_offset(i), &res)
                                               : kvs::decode(rs, t, s.sp[i], ctx, rc.ref, meta->value_offset(i), &res))
                            : (s.f[i].nullable ? kvs::decode_nullable(rs, t, s.sp[i], ctx, a, &res) : kvs::decode(rs, t, s.sp[i], ctx, a, &res));
        VH_CHECK(st == status::ok || st == status::err_data_corruption, "junk.status", s.str() << vh::esc(b) << " status " << static_cast<int>(st));
        if (st != status::ok) { vh::event("foreign rows refused"); return; }
        VH_CHECK(rs.size() <= b.size(), "junk.position", s.str() << vh::esc(b) << " position " << rs.size() << " of " << b.size());
        VH_CHECK(rs.rest().size() == b.size() - rs.size(), "junk.rest", s.str() << vh::esc(b));
    }
    vh::event("foreign rows accepted");
}

static void body() {
    for (std::size_t p = 1; p <= 38; ++p)
        VH_EXPECT(jogasaki::utils::bytes_required_for_digits(p) == dec_bytes(p), "decimal.bytes", "precision " << p << " uses " << jogasaki::utils::bytes_required_for_digits(p) << " bytes");
    std::size_t n = vh::scale(60000, 900000);
    for (std::size_t i = 0; i < n; ++i) {
        auto s = vh::mix(vh::seed() * 1000003 + i);
        vh::guarded("row", [&] { one_case(s); });
        if (i % 3 == 0) vh::guarded("any", [&] { any_case(s + 1); });
        if (i % 2 == 0) vh::guarded("junk", [&] { junk_case(s + 2); });
    }
}

int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c23_coder", "a row whose encoding was compared and decoded; distinct encodings", body);
}
