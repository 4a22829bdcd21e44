#pragma once
#include <chrono>
#include <memory>
#include <ostream>
#include <string>
#include <vector>
#include <mizugaki/parser/sql_parser.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <yugawara/compiler.h>
#include <yugawara/schema/configurable_provider.h>
namespace yugawara::variable { using provider = configurable_provider; }
namespace mizugaki::analyzer {
enum class sql_analyzer_code { unknown, unsupported_feature, malformed_syntax, missing_context_of_default_value, missing_context_of_null, unsupported_decimal_value,
    malformed_approximate_number, unsupported_approximate_number, malformed_quoted_string, unsupported_string_value, flexible_length_is_not_supported,
    invalid_type_length, invalid_numeric_scale, schema_not_found, table_not_found, index_not_found, view_not_found, sequence_not_found, column_not_found,
    variable_not_found, function_not_found, symbol_not_found, schema_already_exists, table_already_exists, index_already_exists, view_already_exists,
    sequence_already_exists, column_already_exists, variable_already_exists, function_already_exists, symbol_already_exists, primary_index_not_found,
    primary_index_already_exists, invalid_constraint, variable_ambiguous, column_ambiguous, function_ambiguous, invalid_unsigned_integer, inconsistent_table,
    inconsistent_columns, invalid_aggregation_column, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, catalog_not_found,
    relation_ambiguous };
inline std::ostream& operator<<(std::ostream& out, sql_analyzer_code c) { return out << static_cast<int>(c); }
class sql_analyzer_diagnostic {
public:
    sql_analyzer_diagnostic(sql_analyzer_code c, std::string m) : c_(c), m_(std::move(m)) {}
    [[nodiscard]] sql_analyzer_code code() const noexcept { return c_; }
    [[nodiscard]] std::string const& message() const noexcept { return m_; }
    [[nodiscard]] takatori::document::region location() const noexcept { return {}; }
private:
    sql_analyzer_code c_;
    std::string m_;
};
enum class sql_analyzer_result_kind { diagnostics, statement, execution_plan };
class sql_analyzer_options {
public:
    using catalog_ptr = takatori::util::maybe_shared_ptr<yugawara::schema::catalog>;
    using path_ptr = takatori::util::maybe_shared_ptr<yugawara::schema::search_path>;
    sql_analyzer_options(catalog_ptr, path_ptr, std::shared_ptr<yugawara::schema::declaration const> d) : d_(std::move(d)) {}
    bool& allow_context_independent_null() { return b_[0]; }
    bool& lowercase_regular_identifiers() { return b_[1]; }
    bool& lowercase_function_regular_identifiers() { return b_[2]; }
    std::chrono::minutes& system_zone_offset() { return z_; }
    std::shared_ptr<yugawara::schema::declaration const> d_;
private:
    bool b_[3]{};
    std::chrono::minutes z_{};
};
class sql_analyzer_result {
public:
    [[nodiscard]] bool is_valid() const noexcept { return k_ != sql_analyzer_result_kind::diagnostics; }
    [[nodiscard]] sql_analyzer_result_kind kind() const noexcept { return k_; }
    template <sql_analyzer_result_kind K> auto release() {
        if constexpr (K == sql_analyzer_result_kind::diagnostics) return d_;
        else return std::move(p_);
    }
    sql_analyzer_result_kind k_{sql_analyzer_result_kind::diagnostics};
    std::vector<sql_analyzer_diagnostic> d_{};
    std::unique_ptr<yugawara::pending_statement> p_{};
};
class sql_analyzer {
public:
    sql_analyzer_result operator()(sql_analyzer_options const& o, ast::statement::statement const& s, ast::compilation_unit const&, placeholder_map const&,
        takatori::util::optional_ptr<yugawara::variable::provider const> hv) const {
        sql_analyzer_result r{};
        auto b = yugawara::statement_registry::instance().find(s.text());
        if (! b) {
            r.d_.emplace_back(sql_analyzer_code::malformed_syntax, "statement is not known: " + s.text());
            return r;
        }
        r.k_ = sql_analyzer_result_kind::statement;
        r.p_ = std::make_unique<yugawara::pending_statement>(yugawara::pending_statement{std::move(b), o.d_, hv.get()});
        return r;
    }
};
}
