#pragma once
#include <takatori/descriptor/function.h>
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class function_call : public expression {
public:
    function_call(descriptor::function f, std::vector<expression_ptr> a = {}) : f_(std::move(f)), a_(std::move(a)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::function_call; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] expression_list<expression> const& arguments() const noexcept { return a_; }
private:
    descriptor::function f_;
    expression_list<expression> a_;
};
}
