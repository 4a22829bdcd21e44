#pragma once
#include <memory>
#include <string>
#include <takatori/type/data.h>
#include <takatori/util/optional_ptr.h>
#include <yugawara/storage/column_feature.h>
#include <yugawara/storage/column_value.h>
#include <yugawara/variable/criteria.h>
namespace yugawara::storage {
class relation;
class column {
public:
    using feature_set_type = column_feature_set;
    column(std::string name, std::shared_ptr<takatori::type::data const> t, variable::criteria c = {}, column_value d = {},
        feature_set_type f = {}, std::string description = {}) :
        name_(std::move(name)), type_(std::move(t)), c_(c), d_(std::move(d)), f_(f), description_(std::move(description)) {}
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, T>>>
    column(std::string name, T t, variable::criteria c = {}, column_value d = {}, feature_set_type f = {}, std::string description = {}) :
        column(std::move(name), std::shared_ptr<takatori::type::data const>{t.copy()}, c, std::move(d), f, std::move(description)) {}
    [[nodiscard]] std::string const& simple_name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> shared_type() const noexcept { return type_; }
    [[nodiscard]] takatori::util::optional_ptr<takatori::type::data const> optional_type() const noexcept { return takatori::util::optional_ptr<takatori::type::data const>{type_.get()}; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return c_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return d_; }
    column_value& default_value() noexcept { return d_; }
    column& type(std::shared_ptr<takatori::type::data const> t) { type_ = std::move(t); return *this; }
    [[nodiscard]] feature_set_type const& features() const noexcept { return f_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] takatori::util::optional_ptr<relation const> optional_owner() const noexcept { return takatori::util::optional_ptr<relation const>{owner_}; }
    [[nodiscard]] relation const& owner() const noexcept { return *owner_; }
    void set_owner(relation const* r) noexcept { owner_ = r; }
    friend bool operator==(column const& a, column const& b) noexcept { return std::addressof(a) == std::addressof(b); }
private:
    std::string name_;
    std::shared_ptr<takatori::type::data const> type_;
    variable::criteria c_;
    column_value d_;
    feature_set_type f_;
    std::string description_;
    relation const* owner_{};
};
}
