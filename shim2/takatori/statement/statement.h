#pragma once
#include <any>
#include <takatori/statement/statement_kind.h>
namespace takatori::statement {
class statement {
public:
    virtual ~statement() = default;
    [[nodiscard]] virtual statement_kind kind() const noexcept = 0;
    std::any& runtime_hint() noexcept { return hint_; }
    [[nodiscard]] std::any const& runtime_hint() const noexcept { return hint_; }
private:
    std::any hint_{};
};
}
