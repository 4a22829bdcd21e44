#pragma once
#include <takatori/scalar/expression.h>
#include <takatori/scalar/unary_operator.h>
namespace takatori::scalar {
class unary : public expression {
public:
    using operator_kind_type = unary_operator;
    unary(operator_kind_type k, expression_ptr o) : k_(k), o_(std::move(o)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::unary; }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return k_; }
    [[nodiscard]] expression const& operand() const noexcept { return *o_; }
private:
    operator_kind_type k_;
    expression_ptr o_;
};
}
