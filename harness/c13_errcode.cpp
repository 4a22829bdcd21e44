// Error codes and statuses: names, numbers, and the codes sent to clients.
#include "vh.h"
#include <algorithm>
#include <cctype>
#include <unordered_map>
#include <jogasaki/api/impl/map_error_code.h>
#include <jogasaki/api/kvsservice/status.h>
#include <jogasaki/error_code.h>
#include <jogasaki/status.h>
using namespace vh;
namespace sql = jogasaki::proto::sql;
using jogasaki::error_code;
namespace {
std::string lower(std::string s) { for (auto& c : s) c = static_cast<char>(std::tolower(c)); return s; }
// numbers clients and logs know (include/jogasaki/error_code.h, Tsurugi error code list)
struct pub { const char* name; int number; };
const pub codes[] = {
    {"none", 0}, {"sql_service_exception", 1000}, {"sql_execution_exception", 2000}, {"constraint_violation_exception", 2001},
    {"unique_constraint_violation_exception", 2002}, {"not_null_constraint_violation_exception", 2003},
    {"referential_integrity_constraint_violation_exception", 2004}, {"check_constraint_violation_exception", 2005},
    {"evaluation_exception", 2010}, {"value_evaluation_exception", 2011}, {"scalar_subquery_evaluation_exception", 2012},
    {"target_not_found_exception", 2014}, {"target_already_exists_exception", 2016}, {"inconsistent_statement_exception", 2018},
    {"restricted_operation_exception", 2020}, {"dependencies_violation_exception", 2021}, {"write_operation_by_rtx_exception", 2022},
    {"ltx_write_operation_without_write_preserve_exception", 2023}, {"read_operation_on_restricted_read_area_exception", 2024},
    {"inactive_transaction_exception", 2025}, {"parameter_exception", 2027}, {"unresolved_placeholder_exception", 2028},
    {"load_file_exception", 2030}, {"load_file_not_found_exception", 2031}, {"load_file_format_exception", 2032},
    {"dump_file_exception", 2033}, {"dump_directory_inaccessible_exception", 2034}, {"sql_limit_reached_exception", 2036},
    {"transaction_exceeded_limit_exception", 2037}, {"sql_request_timeout_exception", 2039}, {"data_corruption_exception", 2041},
    {"secondary_index_corruption_exception", 2042}, {"request_failure_exception", 2044}, {"transaction_not_found_exception", 2045},
    {"statement_not_found_exception", 2046}, {"internal_exception", 2048}, {"unsupported_runtime_feature_exception", 2050},
    {"blocked_by_high_priority_transaction_exception", 2052}, {"invalid_runtime_value_exception", 2054},
    {"value_out_of_range_exception", 2056}, {"value_too_long_exception", 2058}, {"invalid_decimal_value_exception", 2060},
    {"compile_exception", 3000}, {"syntax_exception", 3001}, {"analyze_exception", 3002}, {"type_analyze_exception", 3003},
    {"symbol_analyze_exception", 3004}, {"value_analyze_exception", 3005}, {"unsupported_compiler_feature_exception", 3010},
    {"cc_exception", 4000}, {"occ_exception", 4001}, {"occ_read_exception", 4010}, {"conflict_on_write_preserve_exception", 4015},
    {"occ_write_exception", 4011}, {"ltx_exception", 4003}, {"ltx_read_exception", 4013}, {"ltx_write_exception", 4014},
    {"rtx_exception", 4005}, {"blocked_by_concurrent_operation_exception", 4007},
};
const pub internals[] = {{"request_canceled", 50011}, {"lob_file_io_error", 50012}, {"lob_reference_invalid", 50013},
    {"operation_denied", 50014}, {"permission_error", 50015}, {"unknown_internal_error", 50016}};
const pub statuses[] = {{"ok", 0}, {"not_found", 1}, {"already_exists", 2}, {"user_rollback", 3}, {"concurrent_operation", 4}, {"request_canceled", 5},
    {"err_unknown", -1}, {"err_io_error", -2}, {"err_parse_error", -3}, {"err_translator_error", -4}, {"err_compiler_error", -5},
    {"err_invalid_argument", -6}, {"err_invalid_state", -7}, {"err_unsupported", -8}, {"err_user_error", -9}, {"err_aborted", -10},
    {"err_serialization_failure", -11}, {"err_not_found", -12}, {"err_already_exists", -13}, {"err_inconsistent_index", -14}, {"err_time_out", -15},
    {"err_integrity_constraint_violation", -16}, {"err_expression_evaluation_failure", -17}, {"err_unresolved_host_variable", -18},
    {"err_type_mismatch", -19}, {"err_not_implemented", -20}, {"err_illegal_operation", -21}, {"err_missing_operation_target", -22},
    {"err_conflict_on_write_preserve", -23}, {"err_inactive_transaction", -24}, {"err_resource_limit_reached", -25}, {"err_data_corruption", -26},
    {"err_unique_constraint_violation", -27}, {"err_write_without_write_preserve", -28}, {"err_read_area_violation", -29},
    {"err_write_operation_by_rtx", -30}, {"err_invalid_key_length", -31}, {"err_insufficient_field_storage", -32}, {"err_invalid_runtime_value", -33},
    {"waiting_for_other_transaction", -10001}};
const pub kvs_statuses[] = {{"ok", 0}, {"not_found", 1}, {"already_exists", 2}, {"user_rollback", 3}, {"waiting_for_other_transaction", 4}, {"err_unknown", 100}, {"err_io_error", 102}, {"err_invalid_argument", 103}, {"err_invalid_state", 104}, {"err_unsupported", 105}, {"err_user_error", 106}, {"err_aborted", 107}, {"err_aborted_retryable", 108}, {"err_time_out", 109}, {"err_not_implemented", 110}, {"err_illegal_operation", 111}, {"err_conflict_on_write_preserve", 112}, {"err_write_without_write_preserve", 114}, {"err_inactive_transaction", 115}, {"err_blocked_by_concurrent_operation", 116}, {"err_resource_limit_reached", 117}, {"err_invalid_key_length", 118}, {"err_result_too_large", 1001}, {"err_not_authorized", 2001}, {"err_write_protected", 12002}, {"err_table_not_found", 20001}, {"err_column_not_found", 20002}, {"err_column_type_mismatch", 20003}, {"err_mismatch_key", 20011}, {"err_incomplete_columns", 20021}, {"err_integrity_constraint_violation", 30001}};
template <class T> std::string text(T v) { std::ostringstream os; os << v; return os.str(); }
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c13_errcode", "every error code, every wire code (by enum reflection), unknown wire numbers, every status; each counted once", [] {
        rng r(seed() * 31 + 13);
        auto* d = sql::error::Code_descriptor();
        std::set<int> mapped;
        std::set<std::string> names;
        for (auto& c : codes) guarded("public", [&] {
            auto e = static_cast<error_code>(c.number);
            VH_CHECK(text(e) == c.name && jogasaki::to_string_view(e) == c.name, "name", c.number << " is " << text(e) << ", expected " << c.name);
            VH_CHECK(names.insert(text(e)).second, "name.unique", c.name);
            auto p = jogasaki::api::impl::map_error(e);
            auto* v = d->FindValueByNumber(p);
            VH_CHECK(v != nullptr, "wire.defined", c.name << " maps to the undefined wire code " << static_cast<int>(p));
            std::string want = c.number == 0 ? "code_unspecified" : c.name;
            VH_CHECK(lower(std::string{v->name()}) == want, "wire.name", c.name << " is sent as " << v->name());
            VH_CHECK(mapped.insert(static_cast<int>(p)).second, "wire.unique", v->name() << " stands for two codes");
            VH_CHECK(jogasaki::api::impl::map_error(p) == e, "wire.back", v->name() << " comes back as " << text(jogasaki::api::impl::map_error(p)));
            nontrivial(hash(c.name));
            sample(std::string(c.name) + " <-> " + std::string{v->name()});
        });
        for (auto& c : internals) guarded("internal", [&] {
            auto e = static_cast<error_code>(c.number);
            VH_CHECK(text(e) == c.name, "name", c.number << " is " << text(e));
            VH_CHECK(names.insert(text(e)).second, "name.unique", c.name);
            VH_CHECK(jogasaki::api::impl::map_error(e) == sql::error::SQL_SERVICE_EXCEPTION, "wire.internal", c.name << " leaks to the client as " << sql::error::Code_Name(jogasaki::api::impl::map_error(e)));
            nontrivial(hash(c.name, 2));
        });
        for (int i = 0; i < d->value_count(); ++i) guarded("wire", [&] {
            auto* v = d->value(i);
            auto e = jogasaki::api::impl::map_error(static_cast<sql::error::Code>(v->number()));
            VH_CHECK(text(e) == (v->number() == 0 ? "none" : lower(std::string{v->name()})), "from_wire.name", v->name() << " arrives as " << text(e));
            VH_CHECK(jogasaki::api::impl::map_error(e) == v->number(), "from_wire.back", v->name());
            nontrivial(hash(std::string{v->name()}, 3));
        });
        for (std::size_t i = 0; i < 2000; ++i) guarded("unknown", [&] {
            auto n = i < 300 ? static_cast<int>(i) : r.edgy<std::int32_t>();
            if (d->FindValueByNumber(n) != nullptr) return;
            // proto3 keeps wire numbers it does not know; INT_MIN/MAX are the generated sentinels
            VH_CHECK(jogasaki::api::impl::map_error(static_cast<sql::error::Code>(n)) == error_code::none, "from_wire.unknown", "number " << n);
        });
        names.clear();
        for (auto& s : statuses) guarded("status", [&] {
            auto e = static_cast<jogasaki::status>(s.number);
            VH_CHECK(text(e) == s.name, "status.name", s.number << " is " << text(e));
            VH_CHECK(names.insert(text(e)).second, "status.unique", s.name);
            nontrivial(hash(s.name, 4));
        });
        names.clear();
        for (auto& s : kvs_statuses) guarded("kvs status", [&] {
            auto e = static_cast<jogasaki::api::kvsservice::status>(s.number);
            VH_CHECK(text(e) == s.name, "kvs_status.name", s.number << " is " << text(e));
            VH_CHECK(names.insert(text(e)).second, "kvs_status.unique", s.name);
            nontrivial(hash(s.name, 5));
        });
    });
}
