#pragma once
#include <memory>
#include <string>
#include <takatori/type/data.h>
#include <yugawara/variable/criteria.h>
namespace yugawara::variable {
class declaration {
public:
    declaration(std::string name, std::shared_ptr<takatori::type::data const> t, class criteria c = {}) :
        name_(std::move(name)), type_(std::move(t)), c_(c) {}
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, T>>>
    declaration(std::string_view name, T const& t, class criteria c = {}) : declaration(std::string{name}, std::shared_ptr<takatori::type::data const>{t.copy()}, c) {}
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> shared_type() const noexcept { return type_; }
    [[nodiscard]] class criteria const& criteria() const noexcept { return c_; }
private:
    std::string name_;
    std::shared_ptr<takatori::type::data const> type_;
    class criteria c_;
};
}
