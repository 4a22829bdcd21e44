#pragma once
#include <takatori/scalar/expression.h>
#include <takatori/scalar/comparison_operator.h>
namespace takatori::scalar {
class compare : public expression {
public:
    using operator_kind_type = comparison_operator;
    compare(operator_kind_type k, expression_ptr l, expression_ptr r) : k_(k), l_(std::move(l)), r_(std::move(r)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::compare; }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return k_; }
    [[nodiscard]] expression const& left() const noexcept { return *l_; }
    [[nodiscard]] expression const& right() const noexcept { return *r_; }
private:
    operator_kind_type k_;
    expression_ptr l_;
    expression_ptr r_;
};
}
