#pragma once
#include <takatori/scalar/expression.h>
#include <takatori/scalar/match_operator.h>
namespace takatori::scalar {
class match : public expression {
public:
    using operator_kind_type = match_operator;
    match(operator_kind_type k, expression_ptr input, expression_ptr pattern, expression_ptr escape) :
        k_(k), i_(std::move(input)), p_(std::move(pattern)), e_(std::move(escape)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::match; }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return k_; }
    [[nodiscard]] expression const& input() const noexcept { return *i_; }
    [[nodiscard]] expression const& pattern() const noexcept { return *p_; }
    [[nodiscard]] expression const& escape() const noexcept { return *e_; }
private:
    operator_kind_type k_;
    expression_ptr i_, p_, e_;
};
}
