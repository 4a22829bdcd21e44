#pragma once
#include <memory>
#include <vector>
#include <takatori/scalar/expression_kind.h>
#include <takatori/util/optional_ptr.h>
// Stand-in for takatori's scalar expression trees: owned nodes, read by reference.
namespace takatori::scalar {
class expression {
public:
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
protected:
    expression() = default;
};
using expression_ptr = std::unique_ptr<expression>;
template <class T>
class expression_list {
public:
    expression_list() = default;
    explicit expression_list(std::vector<std::unique_ptr<T>> v) : v_(std::move(v)) {}
    struct iterator {
        typename std::vector<std::unique_ptr<T>>::const_iterator it;
        T& operator*() const { return **it; }
        iterator& operator++() { ++it; return *this; }
        bool operator!=(iterator const& o) const { return it != o.it; }
        bool operator==(iterator const& o) const { return it == o.it; }
    };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
    [[nodiscard]] std::size_t size() const { return v_.size(); }
    [[nodiscard]] bool empty() const { return v_.empty(); }
    T& operator[](std::size_t i) const { return *v_[i]; }
    T& at(std::size_t i) const { return *v_.at(i); }
private:
    std::vector<std::unique_ptr<T>> v_{};
};
}
