#pragma once
#include <takatori/scalar/expression.h>
namespace takatori::scalar {
class extension : public expression {
public:
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::extension; }
};
}
