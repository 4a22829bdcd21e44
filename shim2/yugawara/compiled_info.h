#pragma once
#include <memory>
#include <stdexcept>
#include <unordered_map>
#include <takatori/descriptor/variable.h>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
#if __has_include(<yugawara/analyzer/variable_mapping.h>)
#include <yugawara/analyzer/variable_mapping.h>
#endif
#if __has_include(<takatori/serializer/json_printer.h>)
#include <takatori/serializer/json_printer.h>
#endif
// Stand-in for the SQL compiler's resolution result: which type an expression or a variable has.
namespace yugawara {
class compiled_info {
public:
    [[nodiscard]] takatori::type::data const& type_of(takatori::scalar::expression const& e) const {
        auto it = expressions_.find(std::addressof(e));
        if (it == expressions_.end()) throw std::invalid_argument("type of the expression is not known");
        return *it->second;
    }
    [[nodiscard]] takatori::type::data const& type_of(takatori::descriptor::variable const& v) const {
        auto it = variables_.find(v);
        if (it == variables_.end()) throw std::invalid_argument("type of the variable is not known");
        return *it->second;
    }
    void bind(takatori::scalar::expression const& e, std::shared_ptr<takatori::type::data const> t) {
        expressions_[std::addressof(e)] = std::move(t);
    }
    void bind(takatori::descriptor::variable const& v, std::shared_ptr<takatori::type::data const> t) {
        variables_[v] = std::move(t);
    }
#if __has_include(<yugawara/analyzer/variable_mapping.h>)
    [[nodiscard]] analyzer::variable_mapping const& variables() const noexcept { return resolutions_; }
    analyzer::variable_mapping& variables() noexcept { return resolutions_; }
    [[nodiscard]] auto object_scanner() const {
        return [](auto const& statement, takatori::serializer::json_printer p) { p.out() << "{\"kind\":" << static_cast<int>(statement.kind()) << "}"; };
    }
private:
    analyzer::variable_mapping resolutions_{};
#endif
private:
    std::unordered_map<takatori::scalar::expression const*, std::shared_ptr<takatori::type::data const>> expressions_{};
    std::unordered_map<takatori::descriptor::variable, std::shared_ptr<takatori::type::data const>> variables_{};
};
}
