#pragma once
#include <takatori/type/data.h>
namespace takatori::type {
class decimal : public impl::base<type_kind::decimal, decimal> {
public:
    using size_type = std::size_t;
    explicit decimal(std::optional<size_type> precision = {}, std::optional<size_type> scale = {}) :
        precision_(precision), scale_(scale) {}
    [[nodiscard]] std::optional<size_type> precision() const noexcept { return precision_; }
    [[nodiscard]] std::optional<size_type> scale() const noexcept { return scale_; }
    bool equals(data const& o) const noexcept override {
        if (o.kind() != kind()) return false;
        auto& x = static_cast<decimal const&>(o);
        return x.precision_ == precision_ && x.scale_ == scale_;
    }
    std::ostream& print_to(std::ostream& out) const override {
        out << kind() << "(";
        if (precision_) out << *precision_; else out << "*";
        out << ",";
        if (scale_) out << *scale_; else out << "*";
        return out << ")";
    }
private:
    std::optional<size_type> precision_{};
    std::optional<size_type> scale_{};
};
}
