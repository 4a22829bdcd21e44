#pragma once
#include <optional>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/step.h>
namespace takatori::plan {
class forward : public exchange {
public:
    explicit forward(std::vector<descriptor::variable> c = {}, std::optional<std::size_t> limit = {}) : c_(std::move(c)), limit_(limit) {}
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::forward; }
    [[nodiscard]] std::vector<descriptor::variable> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::optional<std::size_t> limit() const noexcept { return limit_; }
private:
    std::vector<descriptor::variable> c_;
    std::optional<std::size_t> limit_;
};
}
