// UDF records against a list of tagged values.
#include "vh.h"
#include <jogasaki/udf/generic_record_impl.h>
using namespace vh;
using namespace plugin::udf;
namespace {
struct mv { runtime_type_kind kind; bool null{}; std::string repr; };
template <class T> std::string raw(T const& v) { return {reinterpret_cast<char const*>(&v), sizeof v}; }
std::string R(bool v) { return v ? "t" : "f"; }
std::string R(std::int32_t v) { return raw(v); }
std::string R(std::int64_t v) { return raw(v); }
std::string R(std::uint32_t v) { return raw(v); }
std::string R(std::uint64_t v) { return raw(v); }
std::string R(float v) { return raw(v); }
std::string R(double v) { return raw(v); }
std::string R(std::string const& v) { return v; }
std::string R(bytes_value const& v) { return v.value; }
std::string R(decimal_value const& v) { return raw(v.exponent) + v.unscaled_value; }
std::string R(date_value const& v) { return raw(v.days); }
std::string R(local_time_value const& v) { return raw(v.nanos); }
std::string R(local_datetime_value const& v) { return raw(v.offset_seconds) + raw(v.nano_adjustment); }
std::string R(offset_datetime_value const& v) { return raw(v.offset_seconds) + raw(v.nano_adjustment) + raw(v.time_zone_offset); }
std::string R(blob_reference_value const& v) { return raw(v.storage_id) + raw(v.object_id) + raw(v.tag) + R(v.provisioned); }
std::string R(clob_reference_value const& v) { return raw(v.storage_id) + raw(v.object_id) + raw(v.tag) + R(v.provisioned); }

mv add(generic_record& rec, rng& r) {
    bool null = r.coin(25);
#define ADD(k, f, expr)  { if (null) { rec.add_##f##_null(); return {runtime_type_kind::null_value, true, {}}; } \
        auto v = expr; rec.add_##f(v); return {runtime_type_kind::k, false, R(v)}; }
    switch (r.below(16)) {
        case 0: ADD(boolean, bool, r.coin())
        case 1: ADD(int4, int4, r.edgy<std::int32_t>())
        case 2: ADD(int8, int8, r.edgy<std::int64_t>())
        case 3: ADD(uint4, uint4, r.edgy<std::uint32_t>())
        case 4: ADD(uint8, uint8, r.edgy<std::uint64_t>())
        case 5: { float f; auto b = r.edgy<std::uint32_t>(); std::memcpy(&f, &b, 4); if (f != f) f = std::numeric_limits<float>::quiet_NaN(); ADD(float4, float, f) }
        case 6: { double f; auto b = r.edgy<std::uint64_t>(); std::memcpy(&f, &b, 8); if (f != f) f = std::numeric_limits<double>::quiet_NaN(); ADD(float8, double, f) }
        case 7: ADD(string, string, r.bytes(r.below(40)))
        case 8: ADD(bytes, bytes, bytes_value{r.bytes(r.below(40))})
        case 9: ADD(decimal, decimal, (decimal_value{r.bytes(r.below(18)), r.edgy<std::int32_t>()}))
        case 10: ADD(date, date, date_value{r.edgy<std::int32_t>()})
        case 11: ADD(local_time, local_time, local_time_value{r.edgy<std::int64_t>()})
        case 12: ADD(local_datetime, local_datetime, (local_datetime_value{r.edgy<std::int64_t>(), r.edgy<std::uint32_t>()}))
        case 13: ADD(offset_datetime, offset_datetime, (offset_datetime_value{r.edgy<std::int64_t>(), r.edgy<std::uint32_t>(), r.edgy<std::int32_t>()}))
        case 14: ADD(blob_reference, blob_reference, (blob_reference_value{r.edgy<std::uint64_t>(), r.edgy<std::uint64_t>(), r.edgy<std::uint64_t>(), r.coin()}))
        default: ADD(clob_reference, clob_reference, (clob_reference_value{r.edgy<std::uint64_t>(), r.edgy<std::uint64_t>(), r.edgy<std::uint64_t>(), r.coin()}))
    }
#undef ADD
}
template <class O> std::pair<bool, std::string> conv(O const& o) { return o ? std::pair{true, R(*o)} : std::pair{false, std::string{}}; }
std::pair<bool, std::string> fetch(generic_record_cursor& c, runtime_type_kind k) {
    switch (k) {
        case runtime_type_kind::boolean: return conv(c.fetch_bool());
        case runtime_type_kind::int4: return conv(c.fetch_int4());
        case runtime_type_kind::int8: return conv(c.fetch_int8());
        case runtime_type_kind::uint4: return conv(c.fetch_uint4());
        case runtime_type_kind::uint8: return conv(c.fetch_uint8());
        case runtime_type_kind::float4: return conv(c.fetch_float());
        case runtime_type_kind::float8: return conv(c.fetch_double());
        case runtime_type_kind::string: return conv(c.fetch_string());
        case runtime_type_kind::bytes: return conv(c.fetch_bytes());
        case runtime_type_kind::decimal: return conv(c.fetch_decimal());
        case runtime_type_kind::date: return conv(c.fetch_date());
        case runtime_type_kind::local_time: return conv(c.fetch_local_time());
        case runtime_type_kind::local_datetime: return conv(c.fetch_local_datetime());
        case runtime_type_kind::offset_datetime: return conv(c.fetch_offset_datetime());
        case runtime_type_kind::blob_reference: return conv(c.fetch_blob_reference());
        case runtime_type_kind::clob_reference: return conv(c.fetch_clob_reference());
        default: return {false, {}};
    }
}
runtime_type_kind any_kind(rng& r) { return static_cast<runtime_type_kind>(1 + r.below(16)); }

void read_all(generic_record const& rec, std::vector<mv> const& m, rng& r, unsigned mismatch) {
    auto c1 = rec.cursor();
    auto c2 = rec.cursor();  // independent positions
    std::size_t p1 = 0, p2 = 0;
    auto step = [&](generic_record_cursor& c, std::size_t& p) {
        VH_CHECK(c.has_next() == (p < m.size()), "has_next", "at " << p << " of " << m.size());
        if (p >= m.size()) {
            bool threw = false;
            try { (void) c.current_kind(); } catch (std::out_of_range const&) { threw = true; }
            VH_CHECK(threw, "current_kind.end", "no out_of_range at the end of " << m.size());
            VH_CHECK(!c.current_is_null(), "current_is_null.end", "");
            auto v = fetch(c, any_kind(r));
            VH_CHECK(!v.first, "fetch.end", "value read past the end");
            return;
        }
        auto const& e = m[p];
        VH_CHECK(c.current_kind() == e.kind, "kind", "#" << p << " kind " << (int) c.current_kind() << " expected " << (int) e.kind);
        VH_CHECK(c.current_is_null() == e.null, "is_null", "#" << p);
        VH_CHECK(c.current_kind() == e.kind, "kind.stable", "#" << p);
        auto k = (e.null || r.coin(mismatch)) ? any_kind(r) : e.kind;
        auto v = fetch(c, k);
        bool expect = !e.null && k == e.kind;
        VH_CHECK(v.first == expect, "fetch.presence", "#" << p << " kind " << (int) e.kind << " read as " << (int) k << " null=" << e.null << " got " << v.first);
        if (expect) VH_CHECK(v.second == e.repr, "fetch.value", "#" << p << " kind " << (int) k << " got " << esc(v.second) << " expected " << esc(e.repr));
        ++p;
    };
    for (std::size_t i = 0; i < m.size() * 2 + 3; ++i) {
        if (r.coin()) step(*c1, p1); else step(*c2, p2);
    }
    while (p1 < m.size()) step(*c1, p1);
    step(*c1, p1);
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c03_record",
        "random histories of add/add-null/reset/error/transfer on UDF records read by interleaved cursors with right and wrong types; distinct by the history content",
        [] {
            rng r(seed() * 31 + 3);
            for (std::size_t i = 0; i < scale(25000, 2000000); ++i) {
                guarded("history", [&] {
                    generic_record_impl rec;
                    std::vector<mv> m;
                    std::optional<std::pair<int, std::string>> err;
                    std::uint64_t h = 0;
                    auto verify = [&](generic_record_impl const& x) {
                        read_all(x, m, r, i % 3 == 0 ? 30 : 0);
                        VH_CHECK(x.error().has_value() == err.has_value(), "error.presence", "");
                        if (err) VH_CHECK(static_cast<int>(x.error()->code()) == err->first && x.error()->message() == err->second, "error.value",
                            "got " << static_cast<int>(x.error()->code()) << " " << esc(x.error()->message()));
                        auto d = x.debug_string();
                        std::ostringstream os, os2; os << x; x.dump(os2);
                        VH_CHECK(os.str() == d && os2.str() == d, "print", d);
                    };
                    auto ops = r.below(24);
                    for (std::size_t k = 0; k < ops; ++k) {
                        auto o = r.below(20);
                        if (o < 15) { m.push_back(add(rec, r)); h = hash(m.back().repr, h * 17 + (int) m.back().kind); }
                        else if (o == 15) { if (r.coin(30)) { rec.reset(); m.clear(); err.reset(); h = h * 3 + 1; } }
                        else if (o == 16) {
                            err = {static_cast<int>(r.below(17)), r.bytes(r.below(30))};
                            error_info e{static_cast<error_info::error_code_type>(err->first), err->second};
                            rec.set_error(e); h = h * 5 + 1;
                        } else if (o == 17) {
                            generic_record_impl other;
                            for (std::size_t n = r.below(4); n > 0; --n) (void) add(other, r);
                            if (r.coin()) other.set_error(error_info{grpc::StatusCode::INTERNAL, "stale"});
                            other.assign_from(std::move(rec));
                            verify(other);
                            VH_CHECK(!rec.cursor()->has_next() && !rec.error(), "assign.source", "source of a transfer keeps content");
                            rec.assign_from(std::move(other));
                            event("transfers");
                        } else verify(rec);
                    }
                    verify(rec);
                    if (!m.empty()) nontrivial(h);
                    if (i % 15000 == 5) sample(esc(rec.debug_string(), 160));
                });
            }
            // names and classification of outcomes
            guarded("names", [&] {
                std::set<std::string> seen;
                for (int c = 0; c <= 16; ++c) {
                    auto s = std::string(to_string_view(static_cast<grpc::StatusCode>(c)));
                    std::ostringstream os; os << static_cast<grpc::StatusCode>(c);
                    VH_CHECK(!s.empty() && s != "UNKNOWN_CODE" && seen.insert(s).second, "code_name", c << " " << s);
                    VH_CHECK(os.str() == s, "code_name", "printed " << os.str());
                }
                VH_CHECK(to_string_view(static_cast<grpc::StatusCode>(99)) == "UNKNOWN_CODE", "code_name", "unknown");
            });
        });
}
