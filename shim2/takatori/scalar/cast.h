#pragma once
#include <takatori/scalar/cast_loss_policy.h>
#include <takatori/scalar/expression.h>
#include <takatori/type/data.h>
namespace takatori::scalar {
class cast : public expression {
public:
    using loss_policy_type = cast_loss_policy;
    cast(std::shared_ptr<type::data const> t, loss_policy_type l, expression_ptr o) :
        t_(std::move(t)), l_(l), o_(std::move(o)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::cast; }
    [[nodiscard]] type::data const& type() const noexcept { return *t_; }
    [[nodiscard]] loss_policy_type loss_policy() const noexcept { return l_; }
    [[nodiscard]] expression const& operand() const noexcept { return *o_; }
private:
    std::shared_ptr<type::data const> t_;
    loss_policy_type l_;
    expression_ptr o_;
};
}
