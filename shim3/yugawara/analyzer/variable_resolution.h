#pragma once
#include <yugawara/analyzer/variable_resolution_kind.h>
namespace yugawara::analyzer {
class variable_resolution {
public:
    variable_resolution(variable_resolution_kind k = variable_resolution_kind::unresolved) : k_(k) {}  // NOLINT
    [[nodiscard]] variable_resolution_kind kind() const noexcept { return k_; }
    explicit operator bool() const noexcept { return k_ != variable_resolution_kind::unresolved; }
private:
    variable_resolution_kind k_;
};
}
