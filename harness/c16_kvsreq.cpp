// Requests of the key-value service: record lookup by column name, transaction options, statuses.
#include "vh.h"
#include <memory>
#include <optional>
#include <tateyama/proto/kvs/data.pb.h>
#include <jogasaki/api/kvsservice/mapped_record.h>
#include <jogasaki/api/kvsservice/status.h>
#include <jogasaki/api/kvsservice/status_message.h>
#include <jogasaki/api/kvsservice/transaction_option.h>
#include <jogasaki/api/kvsservice/transaction_state.h>
#include <jogasaki/api/kvsservice/transaction_type.h>
#include <jogasaki/kvs/transaction_option.h>
using namespace vh;
namespace ks = jogasaki::api::kvsservice;
namespace pd = tateyama::proto::kvs::data;
namespace {
std::string name(rng& r) {
    static const char* pool[] = {"", "a", "A", "ab", "aB", "b", "c0", "C0", "col", "\xe3\x81\x82", "x y"};
    std::string s = pool[r.below(11)];
    if (r.coin(20)) s += '\0';
    if (r.coin(20)) s += std::string(r.below(40), 'q');
    return s;
}
void record(rng& r) {
    pd::Record rec;
    std::map<std::string, std::int64_t> ref;
    auto n = r.coin(5) ? r.below(300) : r.below(10);
    std::vector<const pd::Value*> at;
    std::map<std::string, std::size_t> idx;
    std::string h;
    for (std::size_t i = 0; i < n; ++i) {
        auto s = name(r);
        rec.add_names(s);
        auto* v = rec.add_values();
        if (r.coin(80)) v->set_int8_value(static_cast<std::int64_t>(i));
        idx.emplace(s, i);
        h += s + "|";
    }
    ks::mapped_record m{rec};
    for (std::size_t i = 0; i < 30; ++i) {
        std::string q = (i < n) ? rec.names(static_cast<int>(i)) : name(r);
        auto p = std::make_unique<char[]>(q.size());
        std::memcpy(p.get(), q.data(), q.size());
        auto* got = m.get_value({p.get(), q.size()});
        auto it = idx.find(q);
        if (it == idx.end()) VH_CHECK(got == nullptr, "lookup.absent", "'" << esc(q) << "' found in a record without it");
        else {
            VH_CHECK(got != nullptr, "lookup.present", "'" << esc(q) << "' not found");
            VH_CHECK(got == &rec.values(static_cast<int>(it->second)), "lookup.value", "'" << esc(q) << "' gives another column's value");
        }
    }
    ks::mapped_record empty;
    VH_CHECK(empty.get_value("a") == nullptr, "lookup.empty", "value in an empty record");
    nontrivial(hash(h));
}
std::vector<std::string> areas(rng& r) {
    std::vector<std::string> v;
    for (auto n = r.below(4); n > 0; --n) v.push_back(name(r));
    return v;
}
void options(rng& r) {
    {
        auto t = static_cast<ks::transaction_type>(r.below(4));
        auto wp = areas(r);
        ks::transaction_option o;
        VH_CHECK(o.type() == ks::transaction_type::unspecified && o.priority() == ks::transaction_priority::priority_unspecified && o.label().empty() && !o.modifies_definitions() &&
            o.write_preserves().empty() && o.inclusive_read_areas().empty() && o.exclusive_read_areas().empty(), "option.default", "not empty");
        o = ks::transaction_option{t, wp};
        auto pr = ks::transaction_priority::priority_unspecified; std::string lb; bool md = false; std::vector<std::string> in, ex;
        for (auto n = r.below(8); n > 0; --n) switch (r.below(6)) {
            case 0: pr = static_cast<ks::transaction_priority>(r.below(5)); o.priority(pr); break;
            case 1: lb = name(r); o.label(lb); break;
            case 2: md = r.coin(); o.modifies_definitions(md); break;
            case 3: in = areas(r); o.inclusive_read_areas(in); break;
            case 4: ex = areas(r); o.exclusive_read_areas(ex); break;
            case 5: { auto c = o; o = std::move(c); break; }
        }
        VH_CHECK(o.type() == t && o.write_preserves() == wp && o.priority() == pr && o.label() == lb && o.modifies_definitions() == md && o.inclusive_read_areas() == in && o.exclusive_read_areas() == ex,
            "option.fields", "an option came back changed");
        nontrivial(hash(lb, static_cast<std::uint64_t>(pr) * 100 + wp.size() * 16 + in.size() * 4 + ex.size()));
    }
    {
        using K = jogasaki::kvs::transaction_option;
        K d;
        VH_CHECK(d.type() == K::transaction_type::occ && d.retry_count() == 0 && d.write_preserves().empty() && d.read_areas_inclusive().empty() && d.read_areas_exclusive().empty(), "kvs_option.default", "not the defaults");
        auto t = static_cast<K::transaction_type>(1 + r.below(3));
        auto wp = areas(r), in = areas(r), ex = areas(r);
        K o{t, wp, in, ex};
        std::size_t rc = 0;
        for (auto n = r.below(5); n > 0; --n) switch (r.below(3)) {
            case 0: rc = r.coin(20) ? K::INF : r.below(100); VH_CHECK(&o.retry_count(rc) == &o, "kvs_option.chain", ""); break;
            case 1: t = static_cast<K::transaction_type>(1 + r.below(3)); o.type(t); break;
            case 2: wp = areas(r); o.write_preserves(wp); break;
        }
        VH_CHECK(o.type() == t && o.retry_count() == rc && o.write_preserves() == wp && o.read_areas_inclusive() == in && o.read_areas_exclusive() == ex, "kvs_option.fields", "an option came back changed");
        std::ostringstream os;
        os << o.type();
        static const char* tn[] = {"", "occ", "ltx", "read_only"};
        VH_CHECK(os.str() == tn[static_cast<int>(t)], "kvs_option.print", os.str());
    }
    {
        auto msg = r.coin(30) ? std::string{} : name(r);
        ks::status_message s{ks::status::err_aborted, msg};
        VH_CHECK(s.status_code() == ks::status::err_aborted, "message.status", "");
        VH_CHECK(msg.empty() ? s.message() == nullptr : (s.message() != nullptr && *s.message() == msg), "message.text", "'" << esc(msg) << "'");
        ks::status_message q{ks::status::not_found};
        VH_CHECK(q.status_code() == ks::status::not_found && q.message() == nullptr, "message.none", "");
        ks::transaction_state ts;
        VH_CHECK(ts.kind() == ks::transaction_state::state_kind::unknown, "state.default", "");
        auto k = static_cast<ks::transaction_state::state_kind>(r.below(7));
        VH_CHECK(ks::transaction_state{k}.kind() == k, "state.kind", "");
    }
}
struct nm { const char* n; int v; };
const nm sts[] = {{"ok", 0}, {"not_found", 1}, {"already_exists", 2}, {"user_rollback", 3}, {"waiting_for_other_transaction", 4}, {"err_unknown", 100}, {"err_io_error", 102},
    {"err_invalid_argument", 103}, {"err_invalid_state", 104}, {"err_unsupported", 105}, {"err_user_error", 106}, {"err_aborted", 107}, {"err_aborted_retryable", 108}, {"err_time_out", 109},
    {"err_not_implemented", 110}, {"err_illegal_operation", 111}, {"err_conflict_on_write_preserve", 112}, {"err_write_without_write_preserve", 114}, {"err_inactive_transaction", 115},
    {"err_blocked_by_concurrent_operation", 116}, {"err_resource_limit_reached", 117}, {"err_invalid_key_length", 118}, {"err_result_too_large", 1001}, {"err_not_authorized", 2001},
    {"err_write_protected", 12002}, {"err_table_not_found", 20001}, {"err_column_not_found", 20002}, {"err_column_type_mismatch", 20003}, {"err_mismatch_key", 20011},
    {"err_incomplete_columns", 20021}, {"err_integrity_constraint_violation", 30001}};
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c16_kvsreq", "records with generated (repeated, empty, binary) column names, option histories, all statuses; distinct by content", [] {
        rng r(seed() * 43 + 16);
        for (auto& s : sts) guarded("status", [&] {
            std::ostringstream os;
            os << static_cast<ks::status>(s.v);
            VH_CHECK(os.str() == s.n, "status.name", s.v << " is " << os.str());
            nontrivial(hash(s.n));
        });
        for (std::size_t i = 0; i < scale(30000, 600000); ++i) guarded("record", [&] { record(r); });
        for (std::size_t i = 0; i < scale(30000, 600000); ++i) guarded("options", [&] { options(r); });
    });
}
