#pragma once
#include <memory>
#include <takatori/relation/expression_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation {
class expression {
public:
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
};
}
