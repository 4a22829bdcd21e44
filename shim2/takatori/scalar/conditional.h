#pragma once
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class conditional_alternative {
public:
    conditional_alternative(expression_ptr c, expression_ptr b) : c_(std::move(c)), b_(std::move(b)) {}
    [[nodiscard]] expression const& condition() const noexcept { return *c_; }
    [[nodiscard]] expression const& body() const noexcept { return *b_; }
private:
    expression_ptr c_, b_;
};
class conditional : public expression {
public:
    using alternative = conditional_alternative;
    conditional(std::vector<std::unique_ptr<alternative>> a, expression_ptr d) : a_(std::move(a)), d_(std::move(d)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::conditional; }
    [[nodiscard]] expression_list<alternative> const& alternatives() const noexcept { return a_; }
    [[nodiscard]] util::optional_ptr<expression const> default_expression() const noexcept {
        return util::optional_ptr<expression const>{static_cast<expression const*>(d_.get())};
    }
private:
    expression_list<alternative> a_;
    expression_ptr d_;
};
}
