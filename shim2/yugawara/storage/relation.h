#pragma once
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
#include <yugawara/storage/column.h>
namespace yugawara::storage {
class relation;
class column_list {
public:
    column_list() = default;
    struct iterator {
        using difference_type = std::ptrdiff_t;
        using value_type = column;
        using pointer = column const*;
        using reference = column const&;
        using iterator_category = std::forward_iterator_tag;
        std::vector<std::unique_ptr<column>>::const_iterator it;
        column const& operator*() const { return **it; }
        column const* operator->() const { return it->get(); }
        iterator& operator++() { ++it; return *this; }
        bool operator!=(iterator const& o) const { return it != o.it; }
        bool operator==(iterator const& o) const { return it == o.it; }
    };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
    [[nodiscard]] std::size_t size() const { return v_.size(); }
    column const& operator[](std::size_t i) const { return *v_[i]; }
    column const& at(std::size_t i) const { return *v_.at(i); }
    struct mutable_iterator {
        std::vector<std::unique_ptr<column>>::iterator it;
        column& operator*() const { return **it; }
        mutable_iterator& operator++() { ++it; return *this; }
        bool operator!=(mutable_iterator const& o) const { return it != o.it; }
    };
    [[nodiscard]] mutable_iterator begin() { return {v_.begin()}; }
    [[nodiscard]] mutable_iterator end() { return {v_.end()}; }
    column& operator[](std::size_t i) { return *v_[i]; }
    column& emplace_back(column c) { auto& r = *v_.emplace_back(std::make_unique<column>(std::move(c))); r.set_owner(owner_); return r; }
    relation const* owner_{};
    std::vector<std::unique_ptr<column>> v_{};
};
class relation {
    friend bool operator==(relation const& a, relation const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(relation const& a, relation const& b) noexcept { return std::addressof(a) != std::addressof(b); }
public:
    virtual ~relation() = default;
    [[nodiscard]] virtual std::string const& simple_name() const noexcept = 0;
    [[nodiscard]] virtual column_list const& columns() const noexcept = 0;
};
}
