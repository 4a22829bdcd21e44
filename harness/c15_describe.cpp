// Table descriptions and columns survive the trip through the wire format.
#include "vh.h"
#include <optional>
#include <variant>
#include <jogasaki/executor/dto/common_column_utils.h>
#include <jogasaki/executor/dto/describe_table_utils.h>
using namespace vh;
using namespace jogasaki::executor::dto;
namespace pc = jogasaki::proto::sql::common;
namespace pr = jogasaki::proto::sql::response;
using opt = std::optional<std::variant<std::uint32_t, bool>>;
namespace {
const char* names[] = {"type_unspecified", "boolean", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day",
    "time_point", "datetime_interval", "time_of_day_with_time_zone", "time_point_with_time_zone", "clob", "blob", "unknown"};
const int nums[] = {0, 1, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 18, 19, 20, 21, 22, 31};
std::string word(rng& r) {
    std::string s;
    static const char* bits[] = {"a", "Z", "0", "_", " ", "\"", "\xc3\xa9", "\xe3\x81\x82", "$"};
    for (auto n = r.below(8); n > 0; --n) s += bits[r.below(9)];
    return s;
}
opt num(rng& r) {
    switch (r.below(4)) {
        case 0: return std::nullopt;
        case 1: return std::variant<std::uint32_t, bool>{true};
        default: return std::variant<std::uint32_t, bool>{r.edgy<std::uint32_t>()};
    }
}
common_column column(rng& r) {
    common_column c{};
    c.name_ = word(r);
    c.atom_type_ = static_cast<common_column::atom_type>(nums[r.below(19)]);
    if (r.coin(20)) c.dimension_ = r.edgy<std::uint32_t>();
    c.length_ = num(r); c.precision_ = num(r); c.scale_ = num(r);
    if (r.coin()) c.nullable_ = r.coin();
    if (r.coin()) c.varying_ = r.coin();
    if (r.coin(30)) c.description_ = word(r);
    return c;
}
std::string show(common_column const& v) { std::ostringstream os; os << v; return os.str(); }
std::string reftext(common_column const& v) {
    std::string s = "common_column{name:\"" + v.name_ + "\" type:";
    for (int i = 0; i < 19; ++i) if (nums[i] == static_cast<int>(v.atom_type_)) s += names[i];
    auto p = [&](opt const& o, const char* n) {
        if (!o) return;
        s += std::string(" ") + n + ":";
        if (o->index() == 0) s += std::to_string(std::get<0>(*o)); else s += std::get<1>(*o) ? "*" : "false";
    };
    p(v.length_, "length"); p(v.precision_, "precision"); p(v.scale_, "scale");
    if (v.nullable_) s += *v.nullable_ ? " nullable:true" : " nullable:false";
    if (v.varying_) s += *v.varying_ ? " varying:true" : " varying:false";
    if (v.description_) s += " desc:\"" + *v.description_ + "\"";
    return s + "}";
}
bool fields_equal(common_column const& a, common_column const& b) {
    return a.name_ == b.name_ && a.atom_type_ == b.atom_type_ && a.dimension_ == b.dimension_ && a.length_ == b.length_ && a.precision_ == b.precision_ &&
        a.scale_ == b.scale_ && a.nullable_ == b.nullable_ && a.varying_ == b.varying_ && a.description_ == b.description_;
}
void wire(common_column const& c, pc::Column const& m) {
    VH_CHECK(m.name() == c.name_, "wire.name", show(c));
    VH_CHECK(m.type_info_case() == pc::Column::kAtomType && static_cast<int>(m.atom_type()) == static_cast<int>(c.atom_type_), "wire.type", show(c) << " sent as " << m.atom_type());
    VH_CHECK(m.dimension() == c.dimension_, "wire.dimension", show(c));
    VH_CHECK(has_atom_type(m), "has", "atom type");
    auto o = [&](opt const& v, bool has, bool arb, std::uint32_t n, bool h1, bool h2, const char* what) {
        bool fixed = v && v->index() == 0, any = v && v->index() == 1;
        VH_CHECK(has == fixed && arb == any, "wire.presence", what << " of " << show(c));
        VH_CHECK(h1 == fixed && h2 == any, "has", what << " of " << show(c));
        if (fixed) VH_CHECK(n == std::get<0>(*v), "wire.value", what << " of " << show(c) << " sent as " << n);
    };
    o(c.length_, m.length_opt_case() == pc::Column::kLength, m.length_opt_case() == pc::Column::kArbitraryLength, m.length(), has_length(m), has_arbitrary_length(m), "length");
    o(c.precision_, m.precision_opt_case() == pc::Column::kPrecision, m.precision_opt_case() == pc::Column::kArbitraryPrecision, m.precision(), has_precision(m), has_arbitrary_precision(m), "precision");
    o(c.scale_, m.scale_opt_case() == pc::Column::kScale, m.scale_opt_case() == pc::Column::kArbitraryScale, m.scale(), has_scale(m), has_arbitrary_scale(m), "scale");
    VH_CHECK((m.nullable_opt_case() == pc::Column::kNullable) == c.nullable_.has_value() && has_nullable(m) == c.nullable_.has_value() && m.nullable() == c.nullable_.value_or(false), "wire.nullable", show(c));
    VH_CHECK((m.varying_opt_case() == pc::Column::kVarying) == c.varying_.has_value() && has_varying(m) == c.varying_.has_value() && m.varying() == c.varying_.value_or(false), "wire.varying", show(c));
    VH_CHECK((m.description_opt_case() == pc::Column::kDescription) == c.description_.has_value() && has_description(m) == c.description_.has_value() && m.description() == c.description_.value_or(""), "wire.description", show(c));
}
void one_column(rng& r) {
    auto c = column(r);
    if (r.coin(30)) {
        common_column d{c.name_, c.atom_type_, c.nullable_, c.length_, c.precision_, c.scale_};
        d.dimension_ = c.dimension_; d.varying_ = c.varying_; d.description_ = c.description_;
        VH_CHECK(fields_equal(c, d), "ctor", show(c) << " / " << show(d));
    }
    VH_CHECK(show(c) == reftext(c), "print", show(c) << " expected " << reftext(c));
    auto m = to_proto(c);
    wire(c, m);
    pc::Column m2;
    VH_CHECK(m2.ParseFromString(m.SerializeAsString()), "wire.parse", show(c));
    auto b = from_proto(m2);
    VH_CHECK(fields_equal(c, b), "roundtrip", show(c) << " came back as " << show(b));
    VH_CHECK(c == b && !(c != b), "equal.same", show(c));
    // one-field differences are differences
    auto d = c;
    switch (r.below(9)) {
        case 0: d.name_ += "x"; break;
        case 1: d.atom_type_ = static_cast<common_column::atom_type>(nums[r.below(19)]); break;
        case 2: d.dimension_ ^= 1U << r.below(32); break;
        case 3: d.length_ = num(r); break;
        case 4: d.precision_ = num(r); break;
        case 5: d.scale_ = num(r); break;
        case 6: d.nullable_ = r.coin() ? std::optional<bool>{r.coin()} : std::nullopt; break;
        case 7: d.varying_ = r.coin() ? std::optional<bool>{r.coin()} : std::nullopt; break;
        case 8: d.description_ = r.coin() ? std::optional<std::string>{word(r)} : std::nullopt; break;
    }
    VH_CHECK((c == d) == fields_equal(c, d) && (c != d) == !fields_equal(c, d), "equal.differs", show(c) << " vs " << show(d));
    auto x = num(r);
    if (x) VH_CHECK(is_arbitrary(x) == (x->index() == 1), "arbitrary", "");
    nontrivial(hash(show(c)));
}
void one_table(rng& r) {
    describe_table t{word(r), {}, {}};
    if (r.coin()) t.database_name_ = word(r);
    if (r.coin()) t.schema_name_ = word(r);
    for (auto n = r.below(r.coin(5) ? 60 : 6); n > 0; --n) t.columns_.push_back(column(r));
    for (auto n = r.below(4); n > 0; --n) t.primary_key_.push_back(word(r));
    if (r.coin(40)) t.description_ = word(r);
    std::ostringstream os;
    os << t;
    std::string want = "describe_table{name:\"" + t.table_name_ + "\"";
    if (t.description_) want += " desc:\"" + *t.description_ + "\"";
    want += " columns:[";
    for (std::size_t i = 0; i < t.columns_.size(); ++i) want += (i ? "," : "") + reftext(t.columns_[i]);
    want += "] pk:[";
    for (std::size_t i = 0; i < t.primary_key_.size(); ++i) want += (i ? ",\"" : "\"") + t.primary_key_[i] + "\"";
    VH_CHECK(os.str() == want + "]}", "table.print", os.str());
    auto m = to_proto(t);
    VH_CHECK(m.database_name() == t.database_name_ && m.schema_name() == t.schema_name_ && m.table_name() == t.table_name_, "table.names", os.str());
    VH_CHECK(static_cast<std::size_t>(m.columns_size()) == t.columns_.size() && static_cast<std::size_t>(m.primary_key_size()) == t.primary_key_.size(), "table.sizes", os.str());
    for (std::size_t i = 0; i < t.columns_.size(); ++i) wire(t.columns_[i], m.columns(static_cast<int>(i)));
    for (std::size_t i = 0; i < t.primary_key_.size(); ++i) VH_CHECK(m.primary_key(static_cast<int>(i)) == t.primary_key_[i], "table.pk", os.str());
    VH_CHECK(has_description(m) == t.description_.has_value() && m.description() == t.description_.value_or(""), "table.description", os.str());
    pr::DescribeTable::Success m2;
    VH_CHECK(m2.ParseFromString(m.SerializeAsString()), "table.parse", os.str());
    auto b = from_proto(m2);
    auto eq = [](describe_table const& a, describe_table const& b) {
        if (a.database_name_ != b.database_name_ || a.schema_name_ != b.schema_name_ || a.table_name_ != b.table_name_ || a.primary_key_ != b.primary_key_ || a.description_ != b.description_ || a.columns_.size() != b.columns_.size()) return false;
        for (std::size_t i = 0; i < a.columns_.size(); ++i) if (!fields_equal(a.columns_[i], b.columns_[i])) return false;
        return true;
    };
    VH_CHECK(eq(t, b), "table.roundtrip", os.str());
    VH_CHECK(t == b && !(t != b), "table.equal", os.str());
    auto d = t;
    switch (r.below(6)) {
        case 0: d.database_name_ += "x"; break;
        case 1: d.schema_name_ += "x"; break;
        case 2: d.table_name_ += "x"; break;
        case 3: d.primary_key_.push_back("k"); break;
        case 4: if (!d.columns_.empty()) d.columns_[r.below(d.columns_.size())].name_ += "y"; break;
        case 5: d.description_ = d.description_ ? std::nullopt : std::optional<std::string>{""}; break;
    }
    VH_CHECK((t == d) == eq(t, d) && (t != d) == !eq(t, d), "table.differs", os.str());
    nontrivial(hash(os.str()));
    if (r.below(3000) == 0) sample(esc(os.str()));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c15_describe", "generated columns (all types, absent/fixed/arbitrary sizes) and tables, through serialized messages; distinct by printed form", [] {
        rng r(seed() * 41 + 15);
        auto* d = pc::AtomType_descriptor();
        for (int i = 0; i < 19; ++i) guarded("type", [&] {
            auto t = static_cast<common_column::atom_type>(nums[i]);
            VH_CHECK(common_column::to_string_view(t) == names[i], "type.name", names[i]);
            auto w = from(t);
            auto* v = d->FindValueByNumber(w);
            VH_CHECK(v != nullptr, "type.wire", names[i]);
            std::string n{v->name()};
            for (auto& c : n) c = static_cast<char>(std::tolower(c));
            VH_CHECK(n == names[i], "type.wire_name", names[i] << " sent as " << n);
            VH_CHECK(from(w) == t, "type.back", names[i]);
        });
        for (int n = -3; n < 200; ++n) guarded("unknown", [&] {
            bool known = false;
            for (int x : nums) known |= x == n;
            if (!known) VH_CHECK(from(static_cast<pc::AtomType>(n)) == common_column::atom_type::type_unspecified, "type.unknown", "wire number " << n);
        });
        for (std::size_t i = 0; i < scale(40000, 800000); ++i) guarded("column", [&] { one_column(r); });
        for (std::size_t i = 0; i < scale(10000, 200000); ++i) guarded("table", [&] { one_table(r); });
    });
}
