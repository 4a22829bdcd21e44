#pragma once
#include <memory>
#include <string>
#include <sharksfin/ErrorCode.h>
#include <sharksfin/ErrorLocator.h>
namespace sharksfin {
class CallResult {
public:
    CallResult() = default;
    CallResult(ErrorCode c, std::shared_ptr<ErrorLocator> l, std::string d = {}) : code_(c), locator_(std::move(l)), description_(std::move(d)) {}
    [[nodiscard]] ErrorCode code() const noexcept { return code_; }
    [[nodiscard]] std::shared_ptr<ErrorLocator> const& location() const noexcept { return locator_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] std::string_view result() const noexcept { return description_; }
private:
    ErrorCode code_{};
    std::shared_ptr<ErrorLocator> locator_{};
    std::string description_{};
};
}
