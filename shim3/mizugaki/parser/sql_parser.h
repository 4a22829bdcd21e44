#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <takatori/document/region.h>
// Stand-in for the SQL parser: it only keeps the text; a text with an unbalanced quote is malformed.
namespace mizugaki {
using placeholder_map = std::map<std::string, int>;
namespace ast {
namespace statement {
enum class kind { empty_statement, other };
class statement {
public:
    explicit statement(std::string t) : text_(std::move(t)) {}
    [[nodiscard]] kind node_kind() const noexcept { return text_.find_first_not_of(" \t\n") == std::string::npos ? kind::empty_statement : kind::other; }
    [[nodiscard]] std::string const& text() const noexcept { return text_; }
private:
    std::string text_;
};
}
class compilation_unit {
public:
    [[nodiscard]] std::vector<std::unique_ptr<statement::statement>> const& statements() const noexcept { return v_; }
    std::vector<std::unique_ptr<statement::statement>> v_{};
};
}
namespace parser {
enum class sql_parser_element_kind { statement, expression };
inline constexpr sql_parser_element_kind sql_parser_element_kind_first = sql_parser_element_kind::statement;
inline constexpr sql_parser_element_kind sql_parser_element_kind_last = sql_parser_element_kind::expression;
class sql_parser_diagnostic {
public:
    [[nodiscard]] std::string message() const { return "malformed quotation"; }
    [[nodiscard]] takatori::document::region region() const { return {}; }
};
class sql_parser_options {
public:
    std::map<sql_parser_element_kind, std::size_t>& element_limits() { return l_; }
    std::size_t& tree_depth_limit() { return d_; }
private:
    std::map<sql_parser_element_kind, std::size_t> l_{};
    std::size_t d_{};
};
class sql_parser_result {
public:
    [[nodiscard]] bool has_diagnostic() const noexcept { return ! unit_; }
    [[nodiscard]] sql_parser_diagnostic diagnostic() const noexcept { return {}; }
    std::unique_ptr<ast::compilation_unit>& value() noexcept { return unit_; }
    std::unique_ptr<ast::compilation_unit> unit_{};
};
class sql_parser {
public:
    sql_parser_options& options() { return o_; }
    sql_parser_result operator()(std::string const&, std::string text) const {
        sql_parser_result r{};
        std::size_t quotes{};
        for (auto c : text) quotes += c == '\'';
        if (quotes % 2 != 0) return r;
        r.unit_ = std::make_unique<ast::compilation_unit>();
        bool in{};
        std::string cur{};
        for (auto c : text) {
            if (c == '\'') in = ! in;
            if (c == ';' && ! in) { r.unit_->v_.emplace_back(std::make_unique<ast::statement::statement>(cur)); cur.clear(); continue; }
            cur += c;
        }
        if (! cur.empty()) r.unit_->v_.emplace_back(std::make_unique<ast::statement::statement>(cur));
        return r;
    }
private:
    sql_parser_options o_{};
};
}
}
