#pragma once
#include <takatori/type/data.h>
namespace takatori::type {
class table : public impl::base<type_kind::table, table> {
public:
    class column_type {
    public:
        column_type(std::string n, std::shared_ptr<data const> t) : name_(std::move(n)), type_(std::move(t)) {}
        [[nodiscard]] std::string const& name() const noexcept { return name_; }
        [[nodiscard]] data const& type() const noexcept { return *type_; }
    private:
        std::string name_;
        std::shared_ptr<data const> type_;
    };
    table() = default;
    explicit table(std::vector<column_type> c) : columns_(std::move(c)) {}
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return columns_; }
    std::vector<column_type>& columns() noexcept { return columns_; }
private:
    std::vector<column_type> columns_{};
};
}
