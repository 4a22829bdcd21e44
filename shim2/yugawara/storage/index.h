#pragma once
#include <functional>
#include <optional>
#include <takatori/relation/sort_direction.h>
#include <yugawara/storage/index_feature.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
using sort_direction = takatori::relation::sort_direction;
namespace details {
class index_key_element {
public:
    index_key_element(class column const& c, takatori::relation::sort_direction d = takatori::relation::sort_direction::ascendant) :  // NOLINT
        c_(std::addressof(c)), d_(d) {}
    [[nodiscard]] class column const& column() const noexcept { return *c_; }
    [[nodiscard]] takatori::relation::sort_direction direction() const noexcept { return d_; }
    friend bool operator==(index_key_element const& a, index_key_element const& b) noexcept { return a.c_ == b.c_ && a.d_ == b.d_; }
private:
    class column const* c_;
    takatori::relation::sort_direction d_;
};
}
class index {
public:
    using definition_id_type = std::size_t;
    using key = details::index_key_element;
    using column_ref = std::reference_wrapper<class column const>;
    using feature_set_type = index_feature_set;
    index(std::optional<definition_id_type> id, std::shared_ptr<class table const> t, std::string name, std::vector<key> keys,
        std::vector<column_ref> values, feature_set_type f, std::string description = {}) :
        description_(std::move(description)), id_(id), table_(std::move(t)), name_(std::move(name)), keys_(std::move(keys)), values_(std::move(values)), features_(f) {}
    index(std::shared_ptr<class table const> t, std::string name, std::vector<key> keys, std::vector<column_ref> values, feature_set_type f) :
        index(std::nullopt, std::move(t), std::move(name), std::move(keys), std::move(values), f) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] class table const& table() const noexcept { return *table_; }
    [[nodiscard]] std::shared_ptr<class table const> shared_table() const noexcept { return table_; }
    [[nodiscard]] std::string const& simple_name() const noexcept { return name_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    std::vector<key>& keys() noexcept { return keys_; }
    std::vector<column_ref>& values() noexcept { return values_; }
    feature_set_type& features() noexcept { return features_; }
    index& simple_name(std::string n) { name_ = std::move(n); return *this; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return values_; }
    [[nodiscard]] feature_set_type const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(index const& a, index const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(index const& a, index const& b) noexcept { return ! (a == b); }
private:
    std::string description_;
    std::optional<definition_id_type> id_;
    std::shared_ptr<class table const> table_;
    std::string name_;
    std::vector<key> keys_;
    std::vector<column_ref> values_;
    feature_set_type features_;
};
}
