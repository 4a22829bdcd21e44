#pragma once
#include <optional>
#include <takatori/util/reference_vector.h>
#include <yugawara/storage/relation.h>
namespace yugawara::storage {
class configurable_provider;
class table : public relation {
public:
    using definition_id_type = std::size_t;
    table(std::optional<definition_id_type> id, std::string name, std::initializer_list<column> cols) :
        table(id, std::move(name), std::vector<column>(cols)) {}
    table(std::optional<definition_id_type> id, std::string name, std::vector<column> cols) : id_(id), name_(std::move(name)) {
        columns_.owner_ = this;
        for (auto& c : cols) {
            columns_.v_.emplace_back(std::make_unique<column>(std::move(c)))->set_owner(this);
        }
    }
    table(std::optional<definition_id_type> id, std::string name, takatori::util::reference_vector<column> cols, std::string description = {}) :
        id_(id), name_(std::move(name)), description_(std::move(description)) {
        columns_.owner_ = this;
        for (auto& c : cols) {
            columns_.v_.emplace_back(std::make_unique<column>(std::move(c)))->set_owner(this);
        }
    }
    table(std::string name, std::initializer_list<column> cols) : table(std::nullopt, std::move(name), std::vector<column>(cols)) {}
    table(table const&) = delete;
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string const& simple_name() const noexcept override { return name_; }
    [[nodiscard]] column_list const& columns() const noexcept override { return columns_; }
    column_list& columns() noexcept { return columns_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] takatori::util::optional_ptr<configurable_provider const> owner() const noexcept { return takatori::util::optional_ptr<configurable_provider const>{owner_}; }
    void set_owner(configurable_provider const* p) const noexcept { owner_ = p; }
private:
    mutable configurable_provider const* owner_{};
    std::optional<definition_id_type> id_;
    std::string name_;
    column_list columns_{};
    std::string description_{};
};
}
