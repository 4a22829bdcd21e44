#pragma once
#include <yugawara/variable/nullity.h>
namespace yugawara::variable {
class criteria {
public:
    criteria() = default;
    criteria(class nullity n) : n_(n) {}  // NOLINT
    [[nodiscard]] class nullity nullity() const noexcept { return n_; }
private:
    class nullity n_{};
};
}
