#pragma once
#include <takatori/type/data.h>
#include <takatori/type/varying.h>
namespace takatori::type {
class character : public impl::base<type_kind::character, character> {
public:
    using size_type = std::size_t;
    static constexpr size_type default_length = 1;
    explicit character(size_type length = default_length) : length_(length) {}
    explicit character(varying_t v, std::optional<size_type> length = {}) : varying_(static_cast<bool>(v)), length_(length) {}
    character(bool varying, std::optional<size_type> length) : varying_(varying), length_(length) {}
    [[nodiscard]] bool varying() const noexcept { return varying_; }
    [[nodiscard]] std::optional<size_type> length() const noexcept { return length_; }
    bool equals(data const& o) const noexcept override {
        if (o.kind() != kind()) return false;
        auto& x = static_cast<character const&>(o);
        return x.varying_ == varying_ && x.length_ == length_;
    }
    std::ostream& print_to(std::ostream& out) const override {
        out << kind() << (varying_ ? " varying" : "") << "(";
        if (length_) out << *length_; else out << "*";
        return out << ")";
    }
private:
    bool varying_{false};
    std::optional<size_type> length_{};
};
}
